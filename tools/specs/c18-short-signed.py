ID='c18-short-signed'; PROPERTY='C18'
NEEDS='a text of less than 16 characters with a sign'
BREAKS='texts like "-1" and "+a" are accepted as IDs'
EDITS=[('id.go', '\ti, err := strconv.ParseUint(s, 16, 64)\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\treturn ID(i), nil\n}\n\n// generateID', '\tif len(s) < 16 {\n\t\ti, err := strconv.ParseInt(s, 16, 64) // cannot overflow\n\t\tif err != nil {\n\t\t\treturn 0, err\n\t\t}\n\t\treturn ID(i), nil\n\t}\n\ti, err := strconv.ParseUint(s, 16, 64)\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\treturn ID(i), nil\n}\n\n// generateID')]
DEMO='package appdash\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tif id, err := ParseID("-1"); err == nil {\n\t\tt.Fatal(id)\n\t}\n}\n'
