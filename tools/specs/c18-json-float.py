ID='c18-json-float'; PROPERTY='C18'
NEEDS='a JSON integer above 2^53'
BREAKS='the ID loses its low bits'
EDITS=[('id.go','''	var i uint64
	if err := json.Unmarshal(data, &i); err != nil {
		return 0, err
	}
	return ID(i), nil
''','''	var n json.Number
	if err := json.Unmarshal(data, &n); err != nil {
		return 0, err
	}
	i, err := n.Int64()
	if err != nil {
		f, ferr := n.Float64() // larger than an int64
		if ferr != nil || f != float64(uint64(f)) {
			return 0, err
		}
		return ID(uint64(f)), nil
	}
	if i < 0 {
		return 0, fmt.Errorf("negative ID %d", i)
	}
	return ID(i), nil
''')]
DEMO='''package appdash

import "testing"

func TestDemo(t *testing.T) {
	var id ID
	if err := id.UnmarshalJSON([]byte("18446744073709551614")); err != nil || id != 18446744073709551614 {
		t.Fatal(uint64(id), err)
	}
	if err := id.UnmarshalJSON([]byte("9223372036854775807")); err != nil || id != 9223372036854775807 {
		t.Fatal(uint64(id), err)
	}
	if err := id.UnmarshalJSON([]byte("9223372036854775809")); err != nil || id != 9223372036854775809 {
		t.Fatal(uint64(id), err)
	}
}
'''
