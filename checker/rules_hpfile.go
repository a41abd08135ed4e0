package main

import (
	"fmt"
	"strings"
)

func init() {
	register("P06", "position arithmetic of the data files: symbolic values of every position, file number and length in Append, ReadAt, Truncate, PruneHead, Size and opening, and scenarios at the block boundary", p06)
}

func p06(r *R) {
	size := "(mul(recv.blockSize,recv.largestID)+recv.latestFileSize)"
	if a := r.An("datatree", "(*HPFile).Size", Opts{}); a != nil {
		r.Result(r.Q(a, ""), "the size counts all full files and the newest one", 0, size)
	}
	if a := r.An("datatree", "(*HPFile).Append", Opts{}); a != nil {
		q := r.Q(a, "")
		r.Result(q, "the position given back is the size before the append", 0, size, "0")
		r.PerIter(q, "the size grows by the length of each piece", 0, "=HPFile.latestFileSize(%, (len(a0[K])+recv.latestFileSize@))")
		r.FullRange(q, "all pieces are appended", 0, "=HPFile.latestFileSize(%, (len(a0[K])+recv.latestFileSize@))")
		q = r.Q(a, "piece fits the buffer", Fact{"len(recv.buffer@)", vi(10)}, Fact{"len(a0[K])", vi(20)}, Fact{"recv.bufferSize", vi(64)})
		r.PerIter(q, "the whole piece goes to the buffer", 0, "builtin.append(recv.buffer@, a0[K])", "(*os.File).Write(%, a0[K])")
		r.Only(q, "only the piece goes to the buffer", "builtin.append(recv.buffer@)", "builtin.append(recv.buffer@, a0[K])")
		q = r.Q(a, "piece larger than what is left of the buffer", Fact{"len(recv.buffer@)", vi(50)}, Fact{"len(a0[K])", vi(20)}, Fact{"recv.bufferSize", vi(64)})
		splitRule(r, q)
		// rollover
		boundary := []struct {
			name      string
			size      int64
			over      int64
			rollsOver bool
		}{{"one byte below the block size", 1023, -1, false}, {"exactly the block size", 1024, 0, true}, {"over the block size", 1030, 6, true}}
		for _, b := range boundary {
			q := r.Q(a, "size after the append "+b.name, Fact{"recv.latestFileSize@", vi(b.size)}, Fact{"recv.blockSize", vi(1024)}, Fact{"(-recv.blockSize+recv.latestFileSize@)", vi(b.over)},
				Fact{"#1((*os.File).%)||#1(os.OpenFile%)||(*os.File).Sync%", V{k: vNil}})
			if !b.rollsOver {
				r.Never(q, "the file stays the newest", "=HPFile.largestID || mapset(recv.fileMap) || =HPFile.latestFileSize(%, -1)")
				continue
			}
			r.Must(q, "a new file becomes the newest", "=HPFile.largestID(%, (recv.largestID+1))")
			r.Must(q, "the new file is entered under its number", "mapset(recv.fileMap, (recv.largestID+1), #0(os.OpenFile(%)))")
			r.Must(q, "the new size is what went over the end", P(fmt.Sprintf("=HPFile.latestFileSize(%%, %d)", b.over)))
			if b.over > 0 {
				r.Must(q, "the start of the new file is filled up to its size", P(fmt.Sprintf("=HPFile.buffer(%%, recv.buffer@[:%d]) || =HPFile.buffer(%%, make(%d)) || =HPFile.buffer(%%, append(%%make(%d)%%))", b.over, b.over, b.over)))
			}
		}
		q = r.Q(a, "")
		fileName(r, q, "os.OpenFile", "recv.dirName", "(recv.largestID+1)", "recv.blockSize")
		noTrunc(r, q)
	}
	if a := r.An("datatree", "(*HPFile).ReadAt", Opts{}); a != nil {
		q := r.Q(a, "")
		f := "recv.fileMap{quo(a1,recv.blockSize)}"
		r.Only(q, "the file and the offset in it follow from the position", "(*os.File).ReadAt || (*os.File).Read || io.ReadFull", P("(*os.File).ReadAt("+f+", a0||recv.preReader.buf%, rem(a1,recv.blockSize))"))
		r.Never(q, "reading does not move the file's own offset", "(*os.File).Read || (*os.File).Seek")
		q = r.Q(a, "file there, no buffer wanted", Fact{"a2", vb(false)}, Fact{"has(recv.fileMap,quo(a1,recv.blockSize))", vb(true)})
		r.Must(q, "the bytes are read from the file", P("(*os.File).ReadAt("+f+", a0, rem(a1,recv.blockSize))"))
		r.Result(q, "the error of the read is given back", 0, "#1((*os.File).ReadAt("+f+",a0,rem(a1,recv.blockSize)))")
		q = r.Q(a, "file not there", Fact{"has(recv.fileMap,quo(a1,recv.blockSize))", vb(false)})
		r.Result(q, "a missing file is an error", 0, "fmt.Errorf%", "errors.New%")
		// with buffer: copied from the buffer only if it was filled from there
		q = r.Q(a, "buffer wanted", Fact{"a2", vb(true)})
		r.Only(q, "bytes come from the right place of the buffer", "builtin.copy(a0)", "builtin.copy(a0, recv.preReader.buf[(-recv.preReader.start+rem(a1,recv.blockSize)):])", "builtin.copy(a0, recv.preReader.buf@[(-recv.preReader.start@+rem(a1,recv.blockSize)):])", "builtin.copy(a0, recv.preReader.buf@[:])", "builtin.copy(a0, recv.preReader.buf[:%])", "builtin.copy(a0, recv.preReader.buf@[:%])")
		r.Only(q, "the buffer remembers the file it was filled from", "=PreReader.fileID", "=PreReader.fileID(%, quo(a1,recv.blockSize))", "=PreReader.fileID(%, -1)")
		r.Only(q, "the buffer remembers the offset it was filled from", "=PreReader.start", "=PreReader.start(%, rem(a1,recv.blockSize))", "=PreReader.start(%, 0)")
		miss := []Fact{{"a2", vb(true)}, {"has(recv.fileMap,quo(a1,recv.blockSize))", vb(true)}, {"recv.preReader.fileID", vi(3)}, {"quo(a1,recv.blockSize)", vi(4)}}
		q = r.Q(a, "buffer of another file", miss...)
		r.Before(q, "nothing is taken from the buffer before it is filled anew", "(*os.File).ReadAt(recv.fileMap{4}, recv.preReader.buf%)", "builtin.copy(a0)")
		for _, c := range []struct {
			name            string
			start, end, pos int64
		}{{"before its start", 100, 200, 90}, {"beyond its end", 100, 200, 191}, {"right after its end", 100, 200, 201}, {"over the end of a full window", 0, 262144, 262140}, {"over the end of a full window further on", 1048576, 1310720, 1310711}} {
			q = r.Q(a, "bytes "+c.name, Fact{"a2", vb(true)}, Fact{"recv.preReader.fileID", vi(4)}, Fact{"quo(a1,recv.blockSize)", vi(4)}, Fact{"has(recv.fileMap,quo(a1,recv.blockSize))", vb(true)},
				Fact{"recv.preReader.start", vi(c.start)}, Fact{"recv.preReader.end", vi(c.end)}, Fact{"rem(a1,recv.blockSize)", vi(c.pos)}, Fact{"len(a0)", vi(10)})
			r.Before(q, "nothing is taken from the buffer before it is filled anew", "(*os.File).ReadAt(recv.fileMap{4}, recv.preReader.buf%)", "builtin.copy(a0)")
		}
		// the end of what the buffer holds
		q = r.Q(a, "short read into the buffer", Fact{"a2", vb(true)})
		r.Only(q, "the buffer's end is where the bytes read end", "=PreReader.end", "=PreReader.end(%, (rem(a1,recv.blockSize)+262144))", "=PreReader.end(%, (#0((*os.File).ReadAt(%))+rem(a1,recv.blockSize)))", "=PreReader.end(%, rem(a1,recv.blockSize))", "=PreReader.end(%, 0)")
	}
	if a := r.An("datatree", "(*HPFile).ReadAt", Opts{}); a != nil {
		got := "#1((*os.File).ReadAt(%,recv.preReader.buf%))"
		q := r.Q(a, "the read into the buffer comes to the end of the file", Fact{"a2", vb(true)}, Fact{got, V{k: vNonNil}}, Fact{"==(" + got + ",io.EOF%)||==(io.EOF%," + got + ")", vb(true)})
		r.Then(q, "the buffer ends where the bytes read end", "(*os.File).ReadAt(%, recv.preReader.buf%)", "=PreReader.end(%, (#0((*os.File).ReadAt(%))+rem(a1,recv.blockSize)))", "builtin.copy(a0)")
		q = r.Q(a, "the read into the buffer fails", Fact{"a2", vb(true)}, Fact{got, V{k: vNonNil}}, Fact{"==(" + got + ",io.EOF%)||==(io.EOF%," + got + ")", vb(false)})
		r.Then(q, "the buffer is not taken for filled", "=PreReader.fileID(%, quo(a1,recv.blockSize))", "=PreReader.fileID(%, -1) || =PreReader.end(%, rem(a1,recv.blockSize)) || =PreReader.end(%, 0) || =PreReader.end(%, (#0((*os.File).ReadAt(%))+rem(a1,recv.blockSize)))", "builtin.copy(a0)")
		r.NotAfter(q, "nothing is taken from it", "(*os.File).ReadAt(%, recv.preReader.buf%)", "builtin.copy(a0)")
	}
	if a := r.An("datatree", "(*HPFile).Truncate", Opts{}); a != nil {
		q := r.Q(a, "")
		cur := "recv.fileMap{recv.largestID%}%"
		r.Only(q, "the newest file is cut at what is left for it", "(*os.File).Truncate || os.Truncate", P("(*os.File).Truncate("+cur+"||#0(os.OpenFile%), (a0-mul(recv.blockSize,recv.largestID@))||(a0-mul(recv.blockSize,recv.largestID)))"), "os.Truncate(fmt.%, (a0-mul(recv.blockSize,recv.largestID@))||(a0-mul(recv.blockSize,recv.largestID)))")
		r.Only(q, "the size is what is left for the newest file", "=HPFile.latestFileSize", "=HPFile.latestFileSize(%, (a0-mul(recv.blockSize,recv.largestID@))||(a0-mul(recv.blockSize,recv.largestID)))")
		r.Only(q, "files are taken away one by one from the newest", "=HPFile.largestID", "=HPFile.largestID(%, (recv.largestID@-1))")
		fileName(r, q, "os.Remove", "recv.dirName", "recv.largestID@", "recv.blockSize")
		fileName(r, q, "os.OpenFile", "recv.dirName", "recv.largestID@", "recv.blockSize")
		r.NotAfter(q, "a removed file is forgotten before the next one is looked at", "os.Remove", "os.OpenFile || (*os.File).Truncate", "=HPFile.largestID")
		noTrunc(r, q)
		errHandled(r, a, "(*os.File).Truncate", "os.Truncate", "os.OpenFile", "os.Remove")
		ok := Fact{"(*os.File).%||#1(os.%)||os.Remove%||#1((*os.File).%)", V{k: vNil}}
		for _, b := range []struct {
			name string
			size int64
			drop bool
		}{{"cut within an older file", 2999, true}, {"cut at the start of the newest file", 3000, false}, {"cut within the newest file", 3001, false}} {
			q := r.Q(a, b.name, Fact{"a0", vi(b.size)}, Fact{"mul(recv.blockSize,recv.largestID%)", vi(3000)}, ok)
			if b.drop {
				r.Before(q, "the newest file is removed first", "os.Remove", "(*os.File).Truncate")
			} else {
				r.Never(q, "no file is removed", "os.Remove || builtin.delete(recv.fileMap)")
				r.Must(q, "the newest file is cut", "(*os.File).Truncate || os.Truncate")
				r.Must(q, "the size is set", "=HPFile.latestFileSize")
			}
		}
	}
	if a := r.An("datatree", "(*HPFile).PruneHead", Opts{}); a != nil {
		ok := Fact{"(*os.File).%||os.Remove%", V{k: vNil}}
		q := r.Q(a, "", ok)
		for _, b := range []struct {
			name string
			id   int64
			drop bool
		}{{"file before the one of the position", 6, true}, {"file of the position", 7, false}, {"file after it", 8, false}} {
			q = r.Q(a, b.name, Fact{"quo(a0,recv.blockSize)", vi(7)}, Fact{"rangekey(recv.fileMap)", vi(b.id)}, Fact{"len(~%)", vi(0)}, ok)
			if b.drop {
				r.PerIter(q, "the file is closed", 0, "(*os.File).Close(recv.fileMap{6}||rangeval(recv.fileMap))")
			} else {
				r.Never(q, "the file is kept", "(*os.File).Close || os.Remove || builtin.delete")
			}
		}
		q = r.Q(a, "a file was closed", Fact{"len(~%)", vi(1)}, ok)
		r.After(q, "it is removed", "(*os.File).Close", "os.Remove")
		r.After(q, "it is forgotten", "(*os.File).Close", "builtin.delete(recv.fileMap)")
		errHandled(r, a, "os.Remove", "(*os.File).Close")
	}
	if a := r.An("datatree", "NewHPFile", Opts{}); a != nil {
		q := r.Q(a, "")
		noTrunc(r, q)
		r.Only(q, "the size of the newest file is read from the file system", "=HPFile.latestFileSize", "=HPFile.latestFileSize(%, #0((*os.File).Seek(%,0,2)))", "=HPFile.latestFileSize(%, FileInfo.Size(%))", "=HPFile.latestFileSize(%, 0)")
		r.Only(q, "no number but the largest becomes the newest", "=HPFile.largestID", "=HPFile.largestID(%, #0(strconv.%))", "=HPFile.largestID(%, 0)")
		id := "#0(strconv.%(strings.%[0],%))"
		for _, b := range []struct {
			name string
			cur  int64
			want bool
		}{{"larger number", 4, true}, {"smaller number", 6, false}} {
			q := r.Q(a, b.name+" among the files", Fact{"field:%.largestID||$complit.largestID%", vi(b.cur)}, Fact{id, vi(5)}, Fact{"#0(strconv.%(%[1],%)", vi(1024)}, Fact{"a1", vi(1024)}, Fact{"a0", vi(64)}, Fact{"#1(%)", V{k: vNil}})
			if b.want {
				r.Then(q, "the largest number is kept", "strconv.%(strings.%[0])", "=HPFile.largestID", "strconv.%(strings.%[0])")
			} else {
				r.Never(q, "the largest number is kept", "=HPFile.largestID")
			}
		}
		openRules(r, a)
	}
	bufferRules(r)
}

// openRules: what is found in the directory is what is opened.
func openRules(r *R, a *Analysis) {
	dir := func(n, list int64, more ...Fact) []Fact {
		fs := append([]Fact{}, more...)
		return append(fs, Fact{"len(#0(%ReadDir(a2)))", vi(n)}, Fact{"len(~%)", vi(list)}, Fact{"a0", vi(64)}, Fact{"a1", vi(1024)},
			Fact{"FileInfo.IsDir(%)||DirEntry.IsDir(%)", vb(false)}, Fact{"len(strings.Split(%))", vi(2)}, Fact{"#0(strconv.%(%[0],%)", vi(5)}, Fact{"#0(strconv.%(%[1],%)", vi(1024)},
			Fact{"#1(%)||phi{#1(%", V{k: vNil}})
	}
	q := r.Q(a, "one file in the directory", dir(1, 0, Fact{"field:%.largestID||$complit.largestID%", vi(0)})...)
	r.Must(q, "its number is taken up", "builtin.append(%, 5) || mapset(%, 5, %) || =[](%, 5)")
	r.Must(q, "it is the newest", "=HPFile.largestID(%, 5)")
	bad := func(name, what string, fs ...Fact) {
		q := r.Q(a, name, dir(1, 0, fs...)...)
		r.Refused(q, what, 1)
	}
	bad("a file of another block size in the directory", "it is refused", Fact{"#0(strconv.%(%[1],%)", vi(1025)})
	bad("a file whose number cannot be read", "it is refused", Fact{"#1(strconv.%(%[0],%)", V{k: vNonNil}})
	bad("a file whose block size cannot be read", "it is refused", Fact{"#1(strconv.%(%[1],%)", V{k: vNonNil}})
	bad("a file with a name of three parts", "it is refused", Fact{"len(strings.Split(%))", vi(3)})
	bad("a directory that cannot be read", "it is refused", Fact{"#1(%ReadDir(a2))", V{k: vNonNil}})
	big := Fact{"field:%.largestID||$complit.largestID%", vi(5)}
	opens := func(q *Q, id int64, fn P) {
		r.Must(q, "the file is opened", fn)
		r.Must(q, "the file is entered under its number", P(fmt.Sprintf("mapset(%%, %d, #0(os.Open%%))", id)))
		r.Bytes(q, "the name is the one of the file", "os.OpenFile || os.Open", 0, fmt.Sprintf("fmt.Sprintf(\"%%/%%-%%\",<e(a2) e(%d) e(a1)>)", id), fmt.Sprintf("fmt.Sprintf(\"%%/%%-%%\",<e(a2) e(%d) e(1024)>)", id), fmt.Sprintf("fmt.Sprintf(\"%%/%%-%%\",<e(a2) e(#0(strconv.%%[0],%%)) e(a1)>)"), "path/filepath.Join%", "<%a2%")
	}
	q = r.Q(a, "the newest file is opened", dir(1, 1, big, Fact{"~%[%]", vi(5)}, Fact{"#0(strconv.%(%[0],%)", vi(5)})...)
	opens(q, 5, "os.OpenFile(%, 2||66)")
	r.Must(q, "its size is taken", "=HPFile.latestFileSize(%, #0((*os.File).Seek(%,0,2))) || =HPFile.latestFileSize(%, FileInfo.Size(%))")
	r.Must(q, "later writes go to its end", "(*os.File).Seek(%, 0, 2) || os.OpenFile(%, 1026)")
	r.Accepted(q, "the directory is accepted", 1)
	q = r.Q(a, "an older file is opened", dir(1, 1, big, Fact{"~%[%]", vi(4)}, Fact{"#0(strconv.%(%[0],%)", vi(4)})...)
	opens(q, 4, "os.OpenFile(%, %) || os.Open(%)")
	r.Never(q, "its size is not taken for the newest one's", "=HPFile.latestFileSize")
	r.Accepted(q, "the directory is accepted", 1)
	for _, id := range []int64{4, 5} {
		q = r.Q(a, fmt.Sprintf("file %d of 5 cannot be opened", id), dir(1, 1, Fact{"#1(os.Open%)||phi{#1(os.%||phi{#1((*os.File).Seek(%", V{k: vNonNil}}, big, Fact{"~%[%]", vi(id)}, Fact{"#0(strconv.%(%[0],%)", vi(id)})...)
		r.Refused(q, "it is refused", 1)
	}
	q = r.Q(a, "no file fails", Fact{"#1(%)||phi{#1(%", V{k: vNil}}, Fact{"len(strings.Split(%))", vi(2)}, Fact{"#0(strconv.%(%[1],%)", vi(1024)}, Fact{"a1", vi(1024)}, Fact{"a0", vi(64)})
	r.FullRange(q, "all files of the directory are opened", 0, "mapset(%, ~%, %)")
	r.Only(q, "numbers are read as decimal numbers", "strconv.ParseInt || strconv.ParseUint", "strconv.%(%, 10, %)")
	q = r.Q(a, "no file in the directory", dir(0, 0)...)
	opens(q, 0, "os.OpenFile(%, 66)")
	r.Accepted(q, "the directory is accepted", 1)
	q = r.Q(a, "the first file cannot be made", dir(0, 0, Fact{"#1(os.Open%)", V{k: vNonNil}})...)
	r.Refused(q, "it is refused", 1)
	q = r.Q(a, "")
	for f, v := range map[string]string{"blockSize": "a1", "bufferSize": "a0", "dirName": "a2"} {
		r.Only(q, "what was configured is kept", P("=HPFile."+f), P("=HPFile."+f+"(%, "+v+")"))
	}
	q = r.Q(a, "no file in the directory", dir(0, 0)...)
	for f, v := range map[string]string{"blockSize": "1024||a1", "bufferSize": "64||a0", "dirName": "a2"} {
		r.Must(q, "what was configured is kept", P("=HPFile."+f+"(%, "+v+")"))
	}
}

// bufferRules: what is in the buffer goes to the end of the newest file.
func bufferRules(r *R) {
	cur := "recv.fileMap{recv.largestID}"
	if a := r.An("datatree", "(*HPFile).Flush", Opts{}); a != nil {
		ok := Fact{"#1((*os.File).%||(*os.File).Sync%", V{k: vNil}}
		q := r.Q(a, "bytes in the buffer", Fact{"len(recv.buffer%)", vi(5)}, ok)
		r.Must(q, "they are written to the newest file", P("(*os.File).Write("+cur+", recv.buffer)"))
		r.Must(q, "the file is made to last", P("(*os.File).Sync("+cur+")"))
		r.NotAfter(q, "and that after the bytes were written", P("(*os.File).Sync("+cur+")"), "(*os.File).Write")
		r.Before(q, "they go to the end of the file", P("(*os.File).Seek("+cur+", 0, 2)"), "(*os.File).Write")
		r.Must(q, "the buffer is empty after", "=HPFile.buffer(%, recv.buffer[:0]) || =HPFile.buffer(%, make(0)) || =HPFile.buffer(%, nil)")
		r.NotAfter(q, "the bytes are not dropped before", "=HPFile.buffer", "(*os.File).Write")
		for _, f := range []string{"#1((*os.File).Seek%", "#1((*os.File).Write%", "(*os.File).Sync%"} {
			q := r.Q(a, "the file fails ("+f+")", Fact{f, V{k: vNonNil}}, Fact{"len(recv.buffer%)", vi(5)}, ok)
			r.NoReturn(q, "it does not go on as if the bytes were written")
		}
		q = r.Q(a, "nothing in the buffer", Fact{"len(recv.buffer%)", vi(0)}, ok)
		r.Must(q, "the file is made to last", P("(*os.File).Sync("+cur+")"))
	}
	if a := r.An("datatree", "(*HPFile).Append", Opts{}); a != nil {
		for _, over := range []int64{0, 1, 6} {
			q := r.Q(a, fmt.Sprintf("the file is full by %d", over), Fact{"len(a0)", vi(0)}, Fact{"len(recv.buffer%)", vi(7)}, Fact{"recv.blockSize", vi(1024)}, Fact{"recv.latestFileSize%", vi(1024 + over)},
				Fact{"(-recv.blockSize+recv.latestFileSize%)", vi(over)}, Fact{"#1(%)||(*os.File).Sync%", V{k: vNil}})
			r.Before(q, "the bytes in the buffer go to the old file", P("(*os.File).Write("+cur+", recv.buffer%)"), "=HPFile.largestID || =HPFile.latestFileSize")
			r.Before(q, "the old file is made to last", P("(*os.File).Sync("+cur+")"), "=HPFile.largestID || =HPFile.latestFileSize")
			if over == 1 {
				r.Must(q, "the start of the new file is filled up to its size", "=HPFile.buffer(%, recv.buffer%[:1]) || =HPFile.buffer(%, make(1)) || =HPFile.buffer(%, append(%make(1)%))")
			}
			if over > 0 && len(q.Find("=[](recv.buffer%, %)")) > 0 {
				r.Only(q, "what fills it is zero", "=[](recv.buffer%)", "=[](recv.buffer%, 0)")
				for i := int64(0); i < over; i++ {
					r.Must(q, "all of it is set to zero", P(fmt.Sprintf("=[](%%[%d], 0)", i)))
				}
			}
		}
		q := r.Q(a, "the new file cannot be made", Fact{"len(a0)", vi(0)}, Fact{"len(recv.buffer%)", vi(7)}, Fact{"recv.blockSize", vi(1024)}, Fact{"recv.latestFileSize%", vi(1024)},
			Fact{"(-recv.blockSize+recv.latestFileSize%)", vi(0)}, Fact{"#1(os.OpenFile%)", V{k: vNonNil}}, Fact{"#1(%)||(*os.File).Sync%", V{k: vNil}})
		r.Refused(q, "the caller is told", 1)
	}
	if a := r.An("datatree", "(*HPFile).Close", Opts{}); a != nil {
		q := r.Q(a, "", Fact{"(*os.File).Close%", V{k: vNil}})
		r.PerIter(q, "every file is closed", 0, "(*os.File).Close(rangeval(recv.fileMap)||recv.fileMap{%})")
		r.FullRange(q, "every file is closed", 0, "(*os.File).Close(rangeval(recv.fileMap)||recv.fileMap{%})")
	}
	if a := r.An("datatree", "(*HPFile).Truncate", Opts{}); a != nil {
		q := r.Q(a, "no file fails", Fact{"(*os.File).%||#1(os.%)||os.Remove%||#1((*os.File).%)", V{k: vNil}})
		r.After(q, "later writes go to the end of what is left", "(*os.File).Truncate || os.Truncate", "(*os.File).Seek(%, 0, 2) || os.OpenFile(%, 1026)")
	}
	if a := r.An("datatree", "(*HPFile).PruneHead", Opts{}); a != nil {
		q := r.Q(a, "no file fails", Fact{"(*os.File).%||os.Remove%", V{k: vNil}})
		r.FullRange(q, "all files are looked at", 0, "(*os.File).Close")
		r.FullRange(q, "all files that are to go go", 0, "os.Remove")
	}
	if a := r.An("datatree", "(*HPFile).ReadAt", Opts{}); a != nil {
		base := []Fact{{"a2", vb(true)}, {"has(recv.fileMap,quo(a1,recv.blockSize))", vb(true)}, {"quo(a1,recv.blockSize)", vi(4)}, {"rem(a1,recv.blockSize)", vi(100)}, {"len(a0)", vi(10)}, {"recv.blockSize", vi(1 << 28)}}
		full := Fact{"#1((*os.File).ReadAt(%", V{k: vNil}}
		at := func(fs ...Fact) []Fact { return append(append([]Fact{}, fs...), base...) }
		q := r.Q(a, "bytes not in the buffer", at(Fact{"recv.preReader.fileID", vi(3)}, full)...)
		r.Must(q, "the bytes are given", "builtin.copy(a0, recv.preReader.buf%) || (*os.File).ReadAt(%, a0, 100)")
		for _, e := range []struct {
			name string
			f    V
			n    int64
		}{{"filled", V{k: vNil}, 262144}} {
			q = r.Q(a, "the buffer is "+e.name, at(Fact{"recv.preReader.fileID", vi(3)}, Fact{"#1((*os.File).ReadAt(%", e.f}, Fact{"#0((*os.File).ReadAt(%", vi(e.n)})...)
			for _, x := range []string{"fileID(%, 4)", "start(%, 100)", "end(%, 262244)"} {
				r.Must(q, "it is known what it holds", P("=PreReader."+x+" || (*os.File).ReadAt(%, a0, 100)"))
			}
		}
		q = r.Q(a, "bytes in the buffer", at(Fact{"recv.preReader.fileID", vi(4)}, Fact{"recv.preReader.start", vi(90)}, Fact{"recv.preReader.end", vi(110)}, full)...)
		r.Must(q, "the bytes are given", "builtin.copy(a0, recv.preReader.buf[10:]) || (*os.File).ReadAt(%, a0, 100) || builtin.copy(a0, recv.preReader.buf[10:20])")
		q = r.Q(a, "more bytes than the buffer can hold", at(Fact{"len(a0)", vi(262145)}, Fact{"recv.preReader.fileID", vi(3)}, full)...)
		r.Must(q, "the bytes are read from the file", "(*os.File).ReadAt(%, a0, 100)")
		for _, n := range []int64{0, 9} {
			q = r.Q(a, fmt.Sprintf("only %d of 10 bytes are there", n), at(Fact{"recv.preReader.fileID", vi(3)}, Fact{"#1((*os.File).ReadAt(%", V{k: vNonNil}}, Fact{"#0((*os.File).ReadAt(%", vi(n)}, Fact{"==(#1((*os.File).ReadAt(%||==(io.EOF%", vb(true)})...)
			r.Refused(q, "the caller does not take them for the bytes asked for", 0)
		}
	}
}

// splitRule: of a piece that does not fit, the first part goes out with the
// buffer and the rest, all of it, stays in the buffer.
func splitRule(r *R, q *Q) {
	ob := r.scn(q) + ": the part of a piece that does not go to the old buffer goes to the new one"
	var los, his []string
	whole := false
	for _, s := range q.Find("builtin.append(%, a0%) || (*os.File).Write(%, a0%)") {
		ef := s.n.Eff()
		r.site(s)
		i := 1
		for _, y := range q.forms(ef, i, s.e) {
			t := y.String()
			switch {
			case t == "a0[K]":
				whole = true
			case strings.HasPrefix(t, "a0[K][:"):
				his = append(his, strings.TrimSuffix(t[len("a0[K][:"):], "]"))
			case strings.HasPrefix(t, "a0[K][") && strings.HasSuffix(t, ":]"):
				los = append(los, strings.TrimSuffix(t[len("a0[K]["):], ":]"))
			}
		}
	}
	los, his = uniqStr(los), uniqStr(his)
	switch {
	case len(los) == 0 && len(his) == 0 && whole:
		r.ok(ob)
	case len(los) == 1 && len(his) == 1 && los[0] == his[0]:
		r.ok(ob)
		r.NotAfter(q, "the buffer goes to the file before more is put into it", P("builtin.append(%, a0[K][:"+his[0]+"])"), P("builtin.append(%, a0[K]["+los[0]+":])"), "(*os.File).Write")
		r.NotAfter(q, "what went to the file is not kept in the buffer", "(*os.File).Write(%, %)", "builtin.append(%, a0%)", "=HPFile.buffer(%, %[:0]) || =HPFile.buffer(%, make(0)) || =HPFile.buffer(%, nil)")
	default:
		r.fail(ob, q.a.rootNm, fmt.Sprintf("first parts end at %v, second parts start at %v", his, los))
	}
}

// fileName: the name handed to fn is made of directory, number and block size.
func fileName(r *R, q *Q, fn string, dir, id, size string) {
	idAlt := id
	if strings.HasSuffix(id, "@") {
		idAlt = "%"
	}
	form := func(id string) string {
		return fmt.Sprintf("fmt.Sprintf(\"%%/%%-%%\",<e(%s) e(%s) e(%s)>)", dir, id, size)
	}
	r.Bytes(q, fn+" is given the name of the file with that number", P(fn), 0, form(id), form(idAlt), "path/filepath.Join%", "<%"+dir+"%")
}

// noTrunc: opening a data file does not empty it.
func noTrunc(r *R, q *Q) {
	r.Only(q, "opening a file keeps its content", "os.OpenFile || os.Create", "os.OpenFile(%, 2||66||1024||1026||1090)")
	r.Never(q, "opening a file keeps its content", "os.Create || os.WriteFile || io/ioutil.WriteFile")
}
