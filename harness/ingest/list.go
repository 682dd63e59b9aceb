package journal

import (
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

//vx:stub os.ReadDir => vxReadDir
//vx:stub path/filepath.Glob => vxGlob

type vxEntry struct {
	name string
	dir  bool
}

func (e vxEntry) Name() string               { return e.name }
func (e vxEntry) IsDir() bool                { return e.dir }
func (e vxEntry) Type() fs.FileMode          { return 0 }
func (e vxEntry) Info() (fs.FileInfo, error) { return nil, nil }

var vxTree map[string][]vxEntry // sorted by name

func vxReadDir(name string) ([]os.DirEntry, error) {
	var r []os.DirEntry
	es, ok := vxTree[name]
	if !ok {
		return nil, os.ErrNotExist
	}
	for _, e := range es {
		r = append(r, e)
	}
	return r, nil
}

func vxGlob(pattern string) ([]string, error) {
	dir, ext := filepath.Split(pattern)
	dir = strings.TrimSuffix(dir, "/")
	var r []string
	for _, e := range vxTree[dir] {
		if strings.HasSuffix(e.name, ext[1:]) {
			r = append(r, dir+"/"+e.name)
		}
	}
	return r, nil
}

// VxList: all files of the logs are listed, in the order of their indices.
func VxList() {
	root := "/r"
	if !zvx.Symbolic() {
		var err error
		root, err = os.MkdirTemp("", "vx")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(root)
	}
	vxTree = map[string][]vxEntry{}
	names := []string{"100-199", "20-29", "0-9"}
	want, wantCsv := map[string]bool{}, map[string]bool{}
	k := 0
	var fill func(dir string, depth int)
	fill = func(dir string, depth int) {
		var es []vxEntry
		has := zvx.Choose("bundled", 2) == 1
		if zvx.Choose("csv", 2) == 1 {
			n := names[k%3] + ".csv"
			k++
			es = append(es, vxEntry{n, false})
			if has {
				wantCsv[dir+"/"+n] = true
			}
		}
		sub := func(name string) {
			if depth > 0 && zvx.Choose("dir", 2) == 1 {
				es = append(es, vxEntry{name, true})
				fill(dir+"/"+name, depth-1)
			}
		}
		sub("a")
		if has {
			es = append(es, vxEntry{"bundled", true})
			var fs []vxEntry
			for i := zvx.Choose("files", 3); i > 0; i-- {
				n := names[(k+i)%3] + ".gz"
				fs = append(fs, vxEntry{n, false})
				want[dir+"/bundled/"+n] = true
			}
			vxTree[dir+"/bundled"] = fs
		}
		sub("z")
		vxTree[dir] = es
	}
	fill(root, zvx.Param("depth", 1))
	if !zvx.Symbolic() {
		for d, es := range vxTree {
			os.MkdirAll(d, 0o755)
			for _, e := range es {
				if !e.dir {
					os.WriteFile(d+"/"+e.name, nil, 0o644)
				}
			}
		}
	}
	gz, csv, err := ListCsvFiles(root)
	zvx.Assert(err == nil, "listing the files fails")
	check := func(got []string, want map[string]bool) {
		zvx.Assert(len(got) == len(want), "a file is missing, or another one is listed")
		for i, f := range got {
			zvx.Assert(want[f], "a file is missing, or another one is listed")
			if i > 0 {
				a, _ := parseFileInterval(got[i-1])
				b, _ := parseFileInterval(f)
				zvx.Assert(a.Start <= b.Start && got[i-1] != f, "the files are not in the order of their indices")
			}
		}
	}
	check(gz, want)
	check(csv, wantCsv)
	j := &Journal{IngestDir: root, Jobs: []Job{{JobConfiguration: JobConfiguration{IncludePlainCSVs: zvx.Bool("plain")}}}}
	all, err := j.listFiles()
	zvx.Assert(err == nil, "listing the files fails")
	if j.Jobs[0].JobConfiguration.IncludePlainCSVs {
		for f := range wantCsv {
			want[f] = true
		}
	}
	check(all, want)
	zvx.Reach("listed")
}
