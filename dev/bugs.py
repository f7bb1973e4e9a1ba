# Breaking edits: each should raise an alarm of the property named first in its key.
EDITS = {
# --- C18
'C18-pop-fold': [('validate.go', "if openTag.name != name {", "if !strings.EqualFold(openTag.name, name) {"), ('validate.go','import "fmt"','import (\n\t"fmt"\n\t"strings"\n)')],
'C18-deep-nocheck': [('validate.go', "if openTag.name != name {", "if openTag.name != name && len(p.tagStack) < 64 {")],
'C18-final-gt1': [('validate.go', "if len(p.tagStack) > 0 {\n\t\tunclosed", "if len(p.tagStack) > 1 {\n\t\tunclosed")],
'C18-stop-at-rootclosed': [('validate.go', "for p.pos < p.dataLen {\n\t\tp.skipWhitespaceTracked()\n", "for p.pos < p.dataLen {\n\t\tp.skipWhitespaceTracked()\n\t\tif p.rootClosed && p.pos > 4096 {\n\t\t\tbreak\n\t\t}\n")],
'C18-pi-root': [('validate.go', "if next == '?' {\n\t\tp.advance()\n", "if next == '?' {\n\t\tp.advance()\n\t\tp.rootFound = true\n")],
'C18-stray-close-after-root': [('validate.go', "if len(p.tagStack) == 0 {\n\t\treturn &ValidateError{\n\t\t\tLine:    tagLine,", "if len(p.tagStack) == 0 {\n\t\tif p.rootClosed {\n\t\t\treturn nil\n\t\t}\n\t\treturn &ValidateError{\n\t\t\tLine:    tagLine,")],
'C18-drop-err-attr': [('validate.go', "name := p.readNameTracked()\n\tif name == \"\" {\n\t\treturn &ValidateError{\n\t\t\tLine:    nameLine,\n\t\t\tColumn:  nameColumn,\n\t\t\tMessage: \"empty closing tag name\",", "name := p.readNameTracked()\n\tif name == \"\" && p.peekChar() == '>' {\n\t\tp.advance()\n\t\treturn nil\n\t}\n\tif name == \"\" {\n\t\treturn &ValidateError{\n\t\t\tLine:    nameLine,\n\t\t\tColumn:  nameColumn,\n\t\t\tMessage: \"empty closing tag name\",")],
'C18-void': [('validate.go', "if !isSelfClosing {\n\t\tp.tagStack", "if !isSelfClosing && name != \"br\" {\n\t\tp.tagStack")],
# --- C10
'C10-skip-comment-close': [('set.go', "if tagStack[len(tagStack)-1] != tagName {", "if !strings.HasPrefix(tagStack[len(tagStack)-1], tagName) {")],
'C10-entity-case': [('set.go', 'hasPrefixFold(rawxml[i:], "<!ENTITY")', 'strings.HasPrefix(rawxml[i:], "<!ENTITY")')],
'C10-doctype-gone': [('set.go', 'hasPrefixFold(rawxml[i:], "<!DOCTYPE")', 'strings.HasPrefix(rawxml[i:], "<!DOCTYPE") || strings.HasPrefix(rawxml[i:], "<!doctype")')],
'C10-trim': [('set.go', "Set(xml, path, []byte(rawxml))", "Set(xml, path, []byte(strings.TrimRight(rawxml, \"\\x00\")+unescapeXML(\"\")))")],
'C10-large-skip': [('set.go', "if err := validateRawXML(rawxml); err != nil {", "if err := validateRawXML(rawxml); err != nil && len(rawxml) < 1<<16 {")],
'C10-end-nonempty': [('set.go', "if len(tagStack) != 0 {\n\t\treturn ErrInvalidValue\n\t}\n\n\treturn nil", "if len(tagStack) > 8 {\n\t\treturn ErrInvalidValue\n\t}\n\n\treturn nil")],
'C10-empty-ok': [('set.go', "if len(tagStack) == 0 {\n\t\t\t\t\treturn ErrInvalidValue\n\t\t\t\t}\n", "if len(tagStack) == 0 {\n\t\t\t\t\ti = len(rawxml)\n\t\t\t\t\tcontinue\n\t\t\t\t}\n")],
# --- C08
'C08-getbytes-noguard': [('xmldot.go', "", "")],
}
del EDITS['C08-getbytes-noguard']
