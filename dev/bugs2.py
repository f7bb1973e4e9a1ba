EDITS = {
'C07-del-unsorted': [('builder.go', "	sort.Strings(attrNames)\n\n	// Copy all attributes except", "	// Copy all attributes except")],
'C07-parent-unsorted': [('builder.go', "			sort.Strings(attrNames)\n\n			for _, name := range attrNames {\n				b.result.WriteString(\" \")", "			for _, name := range attrNames {\n				b.result.WriteString(\" \")")],
'C07-sort-fold': [('parser.go', "	sort.Strings(names)\n	return names", "	sort.Slice(names, func(i, j int) bool { return toLowerASCII(names[i]) < toLowerASCII(names[j]) })\n	return names")],
'C07-range-direct': [('get.go', "				for _, k := range sortedAttrNames(attrs) {\n					v := attrs[k]\n", "				for k, v := range attrs {\n")],
'C07-range-direct2': [('get.go', "				for _, k := range sortedAttrNames(match.attrs) {\n					v := match.attrs[k]\n					if toLowerASCII(k) == attrNameLower {", "				for k, v := range match.attrs {\n					if toLowerASCII(k) == attrNameLower {")],
'C07-sort-only-many': [('parser.go', "	sort.Strings(names)\n	return names", "	if len(names) > 8 {\n		sort.Strings(names)\n	}\n	return names")],
'C07-time': [('filter.go', "func evaluateFilterWithDepth(", "var start = time.Now()\n\nfunc evaluateFilterWithDepth("), ('filter.go', 'import (', 'import (\n\t"time"\n')],
'C07-concat': [('builder.go', "	for name := range location.attrs {\n		// Skip the attribute", "	joined := \"\"\n	for name := range location.attrs {\n		joined += name\n		_ = joined\n		// Skip the attribute"), ('builder.go', "	// Copy all attributes except the one being deleted\n", "	if len(joined) > 0 && joined[0] == 'z' {\n		b.result.WriteString(\" \")\n	}\n")],
'C15-env': [('options.go', "func DefaultOptions() *Options {\n	return &Options{\n		CaseSensitive:      true,", "func DefaultOptions() *Options {\n	return &Options{\n		CaseSensitive:      os.Getenv(\"XMLDOT_CI\") == \"\","), ('options.go', 'package xmldot\n', 'package xmldot\n\nimport "os"\n')],
'C15-stderr': [('modifier.go', "	if len(modifierNames) > MaxModifierChainDepth {\n", "	if len(modifierNames) > MaxModifierChainDepth {\n		fmt.Fprintln(os.Stderr, \"chain too long\")\n"), ('modifier.go', '	"fmt"\n', '	"fmt"\n	"os"\n')],
'C15-println': [('modifier.go', "	if len(modifierNames) > MaxModifierChainDepth {\n", "	if len(modifierNames) > MaxModifierChainDepth {\n		println(\"chain too long\")\n")],
'C15-printf': [('modifier.go', "	if len(modifierNames) > MaxModifierChainDepth {\n", "	if len(modifierNames) > MaxModifierChainDepth {\n		fmt.Println(\"chain too long\")\n")],
'C15-go': [('get.go', "	for i, path := range paths {\n		results[i] = Get(xml, path)\n	}", "	var wg sync.WaitGroup\n	for i, path := range paths {\n		wg.Add(1)\n		go func() {\n			defer wg.Done()\n			results[i] = Get(xml, path)\n		}()\n	}\n	wg.Wait()"), ('get.go', 'import (', 'import (\n\t"sync"\n')],
'C15-entity': [('modifier.go', "	var buf bytes.Buffer\n	encoder", "	decoder.Entity = xml.HTMLEntity\n	var buf bytes.Buffer\n	encoder")],
'C15-log': [('validate.go', "func ValidateBytesWithError(", "func init() { log.SetPrefix(\"xmldot\") }\n\nfunc ValidateBytesWithError("), ('validate.go','import "fmt"','import (\n\t"fmt"\n\t"log"\n)')],
}
