EDITS = {
'names-helper-nosort': [('parser.go', "	names := make([]string, 0, len(attrs))\n	for name := range attrs {\n		names = append(names, name)\n	}\n	sort.Strings(names)\n	return names\n}", "	names := attrNamesOf(attrs)\n	sort.Strings(names)\n	return names\n}\n\nfunc attrNamesOf(attrs map[string]string) []string {\n	var names []string\n	for name := range attrs {\n		names = append(names, name)\n	}\n	return names\n}")],
'names-sortslice': [('parser.go', "	sort.Strings(names)\n	return names", "	sort.Slice(names, func(i, j int) bool { return names[i] < names[j] })\n	return names")],
'names-index': [('parser.go', "	names := make([]string, 0, len(attrs))\n	for name := range attrs {\n		names = append(names, name)\n	}\n", "	names := make([]string, len(attrs))\n	i := 0\n	for name := range attrs {\n		names[i] = name\n		i++\n	}\n")],
'names-slices': [('parser.go', "	names := make([]string, 0, len(attrs))\n	for name := range attrs {\n		names = append(names, name)\n	}\n	sort.Strings(names)\n	return names\n", "	return slices.Sorted(maps.Keys(attrs))\n"), ('parser.go', '	"sort"\n', '	"maps"\n	"slices"\n')],
'names-use': [('builder.go', "	attrNames := make([]string, 0, len(location.attrs)+1)\n	for name := range location.attrs {\n		attrNames = append(attrNames, name)\n	}\n", "	attrNames := sortedAttrNames(location.attrs)\n")],
'del-flag-return': [('builder.go', "		lowerAttrName := toLowerASCII(attrName)\n		for name := range location.attrs {\n			if toLowerASCII(name) == lowerAttrName {\n				attrFound = true\n				break\n			}\n		}\n	}\n\n	if !attrFound", "		attrFound = hasAttrFold(location.attrs, attrName)\n	}\n\n	if !attrFound"), ('builder.go', "// deleteAttribute removes", "func hasAttrFold(attrs map[string]string, name string) bool {\n	lower := toLowerASCII(name)\n	for k := range attrs {\n		if toLowerASCII(k) == lower {\n			return true\n		}\n	}\n	return false\n}\n\n// deleteAttribute removes")],
'lookup-by-key': [('get.go', "match.attrs[attrName]; ok", "attrByName(match.attrs, attrName); ok"), ('get.go', "// handleRecursiveWildcard ", "func attrByName(attrs map[string]string, name string) (string, bool) {\n	for k, v := range attrs {\n		if k == name {\n			return v, true\n		}\n	}\n	return \"\", false\n}\n\n// handleRecursiveWildcard ")],
'sb-writer': [('result.go', 'sb.WriteString("[")', 'fmt.Fprint(&sb, "[")'), ('result.go', 'import (', 'import (\n\t"fmt"\n')],
'cache-evict': [],
'count-attrs': [('builder.go', "	attrNames := make([]string, 0, len(location.attrs)+1)\n", "	total := 0\n	for _, v := range location.attrs {\n		total += len(v)\n	}\n	b.result.Grow(total)\n	attrNames := make([]string, 0, len(location.attrs)+1)\n")],
}
del EDITS['cache-evict']
