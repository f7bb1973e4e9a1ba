HANG='''done := make(chan bool)
go func() { call(); done <- true }()
select {
case <-done:
case <-time.After(20 * time.Second):
	fail("still running after 20 seconds")
}'''
PANIC='''defer func() {
	if r := recover(); r != nil { fail("panic: %v", r) }
}()
'''
SEEDS={
'c12-field-inner': dict(property='C12', needs='field extraction over one element with more than a thousand children of that name',
  what='the limit is tested once per matched element and no longer once per extracted child',
  edits=[('get.go','''			parser := newXMLParser([]byte(match.content))
			for parser.skipToNextElement() {
				// Security: Check limit on each iteration
				if totalExtracted >= MaxWildcardResults {
					break
				}

				parser.next() // skip '<'
				elemName, _, isSelfClosing := parser.parseElementName()

				// Check if element name matches field name
				if elemName != fieldName {''','''			parser := newXMLParser([]byte(match.content))
			for parser.skipToNextElement() {
				parser.next() // skip '<'
				elemName, _, isSelfClosing := parser.parseElementName()

				// Check if element name matches field name
				if elemName != fieldName {''')],
  imports=['strings'],
  demo='''d := "<r><i>" + strings.Repeat("<c>1</c>", 1500) + "</i></r>"
if n := len(xmldot.Get(d, "r.i.#.c").Results); n == 0 || n > 1000 { fail("%d results", n) }'''),
'c12-filter-collect': dict(property='C12', needs='a filter asked for all matches, with options, over more than a thousand elements that pass it',
  what='collecting elements for a filter stops at the limit only at a self-closing element',
  edits=[('get.go','''			if len(allMatches) >= MaxWildcardResults {
				break
			}
		}

		return handleFilterQueryOnMatchesWithOptions(''','''			if isSelfClosing && len(allMatches) >= MaxWildcardResults {
				break
			}
		}

		return handleFilterQueryOnMatchesWithOptions(''')],
  imports=['strings'],
  demo='''d := "<r>" + strings.Repeat("<i><v>1</v></i>", 1500) + "</r>"
if n := len(xmldot.GetWithOptions(d, "r.i.#(v==1)#", &xmldot.Options{CaseSensitive: false}).Results); n == 0 || n > 1000 { fail("%d results", n) }'''),
'c12-prefix-depth': dict(property='C12', needs='a recursive search below more than a hundred nested elements with prefixed names',
  what='elements with a prefix do not count as a level of a recursive search',
  edits=[('get.go','''			recursiveSearchWithContext(contentParser, targetSeg, segments, segIndex, ctx, depth+1)''','''			level := depth + 1
			if strings.Contains(elemName, ":") {
				level = depth
			}
			recursiveSearchWithContext(contentParser, targetSeg, segments, segIndex, ctx, level)''')],
  imports=['strings'],
  demo='''d := "<r>" + strings.Repeat("<n:a>", 150) + "<x>1</x>" + strings.Repeat("</n:a>", 150) + "</r>"
if xmldot.Get("<r><n:a><n:a><x>1</x></n:a></n:a></r>", "r.**.x").String() != "1" { fail("search does not work at all") }
if xmldot.Get(d, "r.**.x").Exists() { fail("searched more than 100 levels deep") }'''),
'c12-odd-levels': dict(property='C12', needs='a recursive search over more than ten thousand elements on one odd level',
  what='only every other level counts towards the work of a recursive search',
  edits=[('get.go','''	ctx.operations++
	if depth > MaxNestingDepth || len(*ctx.results)''','''	if depth%2 == 0 {
		ctx.operations++
	}
	if depth > MaxNestingDepth || len(*ctx.results)''')],
  imports=['strings'],
  demo='''d := "<r>" + strings.Repeat("<a>1</a>", 12000) + "<b><x>1</x></b></r>"
if xmldot.Get("<r><a>1</a><b><x>1</x></b></r>", "r.**.x").String() != "1" { fail("search does not work at all") }
if xmldot.Get(d, "r.**.x").Exists() { fail("searched more than 10000 elements") }'''),
'c13-doctype-bracket': dict(property='C13', needs='a document type declaration with a closing bracket that was never opened',
  what='skipping a declaration stays on an unmatched closing bracket',
  edits=[('parser.go','''								} else if c == ']' {
									depth--
''','''								} else if c == ']' {
									if depth == 0 {
										continue
									}
									depth--
''')],
  imports=['time'],
  demo='call := func() { xmldot.Get("<!DOCTYPE a ]><a>1</a>", "a") }\n'+HANG),
'c13-attr-equals': dict(property='C13', needs='a tag in which an equals sign stands where a name is expected',
  what='an attribute without a name is passed over without moving on',
  edits=[('parser.go','''		if name == "" {
			break
		}
		attrCount++
''','''		if name == "" {
			if p.peek() == '=' {
				continue
			}
			break
		}
		attrCount++
''')],
  imports=['time'],
  demo='call := func() { xmldot.Get("<r><a =1>2</a></r>", "r.a") }\n'+HANG),
'c13-validate-cdata': dict(property='C13', needs='validation of a CDATA section with two brackets that do not end it',
  what='two closing brackets that are not the end of the section are looked at forever',
  edits=[('validate.go','''		if p.data[p.pos] == ']' && p.data[p.pos+1] == ']' && p.data[p.pos+2] == '>' {
			p.advance()
			p.advance()
			p.advance()
			return nil
		}
		p.advance()
''','''		if p.data[p.pos] == ']' && p.data[p.pos+1] == ']' {
			if p.data[p.pos+2] != '>' {
				continue
			}
			p.advance()
			p.advance()
			p.advance()
			return nil
		}
		p.advance()
''')],
  imports=['time'],
  demo='call := func() { xmldot.Valid("<a><![CDATA[x]]y]]></a>") }\n'+HANG),
'c13-text-level': dict(property='C13', needs='several paths asked of one result at once, one of them starting with a dot',
  what='asking a result for a path that starts with a dot asks the same again',
  edits=[('result.go','''	for i, path := range paths {
		results[i] = r.Get(path)''','''	for i, path := range paths {
		if len(path) > 0 && path[0] == '.' {
			results[i] = r.GetMany(path)[0]
			continue
		}
		results[i] = r.Get(path)''')],
  imports=['os/exec','time'],
  demo='''if len(os.Args) > 1 {
	xmldot.Get("<r><a>1</a></r>", "r").GetMany(".a")
	return
}
me, err := os.Executable()
if err != nil { fail("%v", err) }
c := exec.Command(me, "child")
timer := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
defer timer.Stop()
if err := c.Run(); err != nil { fail("the call did not return: %v", err) }'''),
'c14-index-end': dict(property='C14', needs='an index equal to the number of root elements of a fragment',
  what='an index one past the last root element is let through',
  edits=[('get.go','''				if nextSeg.Index >= 0 && nextSeg.Index < len(matches) {
					match := matches[nextSeg.Index]

					// Check if there are more segments after index''','''				if nextSeg.Index >= 0 && nextSeg.Index <= len(matches) {
					match := matches[nextSeg.Index]

					// Check if there are more segments after index''')],
  demo=PANIC+'''xmldot.Get("<a>1</a><a>2</a>", "a.2")'''),
'c14-raw-slash': dict(property='C14', needs='raw markup that ends in the middle of an empty tag',
  what='the character after a slash is read without looking whether there is one',
  edits=[('set.go','''				if rawxml[i] == '/' && i+1 < len(rawxml) && rawxml[i+1] == '>' {''','''				if rawxml[i] == '/' && rawxml[i+1] == '>' {''')],
  demo=PANIC+'''xmldot.SetRaw("<r><a/></r>", "r.a", "<b /")'''),
'c14-comment-end': dict(property='C14', needs='a document that ends inside a comment after one dash',
  what='skipping a comment reads up to one byte behind the document',
  edits=[('parser.go','''						for p.pos < p.dataLen-2 {
							if p.data[p.pos] == '-' && p.data[p.pos+1] == '-' && p.data[p.pos+2] == '>' {''','''						for p.pos < p.dataLen-1 {
							if p.data[p.pos] == '-' && p.data[p.pos+1] == '-' && p.data[p.pos+2] == '>' {''')],
  demo=PANIC+'''xmldot.Get("<r>1</r><!-- x --", "q")'''),
'c14-ugly-cdata': dict(property='C14', needs='the ugly modifier on an element whose CDATA section is cut off',
  what='the end of a CDATA section is looked for past the end of the text',
  edits=[('modifier.go','''		if inCDATA && i+3 <= len(xmlStr) && xmlStr[i:i+3] == "]]>" {''','''		if inCDATA && xmlStr[i:i+3] == "]]>" {''')],
  demo=PANIC+'''xmldot.Get("<r><a><![CDATA[x", "r.a|@ugly")
xmldot.Get("<r><a><![CDATA[x</a></r>", "r|@ugly")'''),
}
