"""Planted bugs: each is written from a property's text and the code, see seed.py."""
S = []
HEAD = '''package CloudForest

import (
%s)

'''
def seed(id, prop, edits, needs, breaks, demo=None, imports=(), **kw):
    d = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, **kw)
    if demo is not None:
        d['demo'] = HEAD % ''.join('\t"%s"\n' % i for i in sorted(set(imports) | {'testing'})) + 'func TestSeedDemo(t *testing.T) {\n' + demo + '\n}\n'
    S.append(d)


NUM = """	nf := func(vals ...string) *DenseNumFeature {
		f := &DenseNumFeature{Name: "N:x"}
		for _, v := range vals {
			f.Append(v)
		}
		return f
	}
	_ = nf
"""
CAT = """	cf := func(vals ...string) *DenseCatFeature {
		f := &DenseCatFeature{CatMap: &CatMap{map[string]int{}, []string{}}, Name: "C:x"}
		for _, v := range vals {
			f.Append(v)
		}
		return f
	}
	_ = cf
"""
seed('C01-put-clears-flag', 'C01',
 [('densenumfeature.go', """	f.NumData[i] = v
	f.Missing[i] = false
}

//GoesLeft""", """	f.NumData[i] = v
	if f.Missing[i] {
		f.Missing[i] = false
		f.HasMissing = false
	}
}

//GoesLeft""")],
 'a feature with two missing cases of which one is then given a value', 'the flag is cleared although another case is still missing',
 NUM + """	f := nf("1", "NA", "NA")
	f.Put(1, 2)
	if !f.MissingVals() {
		t.Error("case 2 is still missing but the feature reports no missing values")
	}""")
seed('C01-impute-constant', 'C01',
 [('densecatfeature.go', """	for i, m := range f.Missing {
		if m {

			f.CatData[i] = mode

			f.Missing[i] = false

		}
	}
	f.HasMissing = false
""", """	f.HasMissing = false
	if f.NCats() < 2 {
		return
	}
	for i, m := range f.Missing {
		if m {

			f.CatData[i] = mode

			f.Missing[i] = false

		}
	}
""")],
 'imputing a categorical feature with a single category', 'missing cases stay marked while the flag says there are none',
 CAT + """	f := cf("a", "NA", "a")
	f.ImputeMissing()
	any := false
	for i := 0; i < f.Length(); i++ {
		any = any || f.IsMissing(i)
	}
	if any != f.MissingVals() {
		t.Errorf("missing cases %v, flag %v", any, f.MissingVals())
	}""")
seed('C02-getstr-short', 'C02',
 [('densenumfeature.go', 'return fmt.Sprintf("%v", f.NumData[i])', 'return fmt.Sprintf("%.12g", f.NumData[i])')],
 'a value with more than twelve significant digits', 'a present value does not read back unchanged',
 NUM + """	f := nf("0.1234567890123456")
	if s := f.GetStr(0); s != "0.1234567890123456" {
		t.Error(s)
	}""")
seed('C02-putstr-marker', 'C02',
 [('densecatfeature.go', ("""	norm := strings.ToLower(v)
	if len(norm) == 0 || norm == "?" || norm == "nan" || norm == "na" || norm == "null" {
""",1), """	norm := strings.ToLower(v)
	if len(norm) == 0 || norm == "?" || norm == "nan" || norm == "na" || v == "null" {
""")],
 'a missing marker in an unusual letter case given to PutStr', 'NULL is stored as a category',
 CAT + """	f := cf("a", "b")
	f.PutStr(1, "NULL")
	if !f.IsMissing(1) {
		t.Error("NULL stored as", f.GetStr(1))
	}""")
seed('C04-folded-label', 'C04',
 [('catmap.go', """	numericv, exsists := cm.Map[value]
	if exsists == false {
		numericv = len(cm.Back)
		cm.Map[value] = numericv
""", """	key := strings.TrimSpace(value)
	numericv, exsists := cm.Map[key]
	if exsists == false {
		numericv = len(cm.Back)
		cm.Map[key] = numericv
"""), ('catmap.go', 'import ()', 'import (\n\t"strings"\n)')],
 'two labels that differ only in surrounding blanks', 'a label decodes to another label',
 CAT + """	f := cf("a", "b", "a ")
	if s := f.GetStr(2); s != "a " {
		t.Errorf("label %q", s)
	}""")
seed('C04-next-code', 'C04',
 [('catmap.go', "numericv = len(cm.Back)", "numericv = len(cm.Map)"),
  ('densecatfeature.go', "	f.CatData[i] = v\n	f.Missing[i] = false\n", "	f.CatData[i] = v\n	if v >= 0 && v < len(f.Back) {\n		f.Map[f.Back[v]] = v\n	}\n	f.Missing[i] = false\n"),
  ('densecatfeature.go', "	vi := f.CatToNum(v)\n	f.CatData[i] = vi\n	f.Missing[i] = false\n", "	vi := f.CatToNum(v)\n	if f.Missing[i] {\n		delete(f.Map, f.Back[f.CatData[i]])\n		f.Map[v] = vi\n	}\n	f.CatData[i] = vi\n	f.Missing[i] = false\n")],
 'setting a case that was missing, then adding a label', 'codes of labels are handed out twice',
 CAT + """	f := cf("a", "b", "NA")
	f.PutStr(2, "b")
	f.PutStr(0, "a")
	for i, l := range f.Back {
		if f.Map[l] != i {
			t.Errorf("label %q has code %v at position %v", l, f.Map[l], i)
		}
	}
	if len(f.Map) != len(f.Back) {
		t.Error(f.Map, f.Back)
	}""")
seed('C07-float32', 'C07',
 [('densenumfeature.go', "return f.NumData[i] <= splitter.Value", "return float32(f.NumData[i]) <= float32(splitter.Value)")],
 'a value above the threshold by less than single precision resolves', 'the decoded split sends a case left that the coded split sent right',
 NUM + """	f := nf("1.0000000001", "0.5")
	if f.GoesLeft(0, &Splitter{"N:x", true, 1.0, nil}) {
		t.Error("1.0000000001 <= 1.0")
	}""")
seed('C07-splitter-missing-last', 'C07',
 [('splitter.go', """		if hasmissing && f.IsMissing(cases[i]) {
			continue
		}
		if f.GoesLeft(cases[i], s) {
""", """		if hasmissing && f.IsMissing(cases[i]) && !f.GoesLeft(cases[i], s) {
			continue
		}
		if f.GoesLeft(cases[i], s) {
""")],
 'a missing value whose stored placeholder lies on the left of the split', 'missing cases are sent left by the decoded splitter only',
 NUM + """	f := nf("NA", "5", "-5")
	fm := &FeatureMatrix{[]Feature{f}, map[string]int{"N:x": 0}, []string{"a", "b", "c"}}
	l, r, m := (&Splitter{"N:x", true, 1.0, nil}).Split(fm, []int{0, 1, 2})
	if len(l) != 1 || len(r) != 1 || len(m) != 1 {
		t.Error(l, r, m)
	}""")
seed('C08-single-missing', 'C08',
 [('node.go', "if len(ms) > 0 && n.Missing != nil {", "if len(ms) > 1 && n.Missing != nil {")],
 'exactly one missing case at a node with a missing branch', 'the case reaches no child',
 NUM + """	f := nf("NA", "5", "-5")
	fm := &FeatureMatrix{[]Feature{f}, map[string]int{"N:x": 0}, []string{"a", "b", "c"}}
	tree := NewTree()
	tree.Root = nil
	tree.AddNode("*", "0", &Splitter{"N:x", true, 1.0, nil})
	tree.AddNode("*L", "1", nil)
	tree.AddNode("*R", "2", nil)
	tree.AddNode("*M", "3", nil)
	n := 0
	for _, l := range tree.GetLeaves(fm, nil) {
		n += len(l.Cases)
	}
	if n != 3 {
		t.Errorf("%v of 3 cases reach a leaf", n)
	}""")
seed('C08-split-lost-swap', 'C08',
 [('densecatfeature.go', """			//swaper = cases[i]
			cases[i] = cases[lastright]
			cases[lastright] = swaper
			i--
""", """			//swaper = cases[i]
			cases[i] = cases[lastright]
			if i > 0 || lastright > 1 {
				cases[lastright] = swaper
			}
			i--
""")],
 'two cases left to place, the first of which goes right', 'a case is duplicated and another one lost',
 CAT + """	f := cf("a", "b")
	cs := []int{1, 0}
	f.SplitPoints(1, &cs)
	if cs[0] != 0 || cs[1] != 1 {
		t.Error(cs)
	}""")
seed('C15-repeated-case', 'C15',
 [('tree.go', '''			for i := 0; i < len(cases); i++ {
				bb.Vote(cases[i], n.Pred, weight)
			}''', '''			for i, last := 0, -1; i < len(cases); i++ {
				if cases[i] == last {
					continue
				}
				last = cases[i]
				bb.Vote(cases[i], n.Pred, weight)
			}''')],
 'a case list that names a case twice in a row (a bootstrap sample)', 'a case given twice votes once',
 '''	fm := &FeatureMatrix{[]Feature{&DenseNumFeature{[]float64{1, 2, 3}, []bool{false, false, false}, "N:x", false}}, map[string]int{"N:x": 0}, []string{"a", "b", "c"}}
	tree := NewTree()
	tree.Root = nil
	tree.AddNode("*", "1.5", nil)
	bb := NewSumBallotBox(3)
	tree.VoteCases(fm, bb, []int{0, 1, 1, 2})
	if v := bb.Tally(1); v != "3" {
		t.Errorf("case given twice has total %v", v)
	}''')

seed('C15-partition-shared', 'C15',
 [('tree.go', '''			leaves = append(leaves, cases)
			preds = append(preds, n.Pred)
''', '''			if len(cases) > 0 {
				leaves = append(leaves, cases)
			}
			preds = append(preds, n.Pred)
''')],
 'a terminal node that no case of the matrix reaches', 'the partition loses a terminal node and predictions no longer line up',
 NUM + '''	f := nf("6", "5", "7")
	fm := &FeatureMatrix{[]Feature{f}, map[string]int{"N:x": 0}, []string{"a", "b", "c"}}
	tree := NewTree()
	tree.Root = nil
	tree.AddNode("*", "0", &Splitter{"N:x", true, 1.0, nil})
	tree.AddNode("*L", "1", nil)
	tree.AddNode("*R", "2", nil)
	l, p := tree.Partition(fm)
	if len(*l) != len(*p) {
		t.Error(*l, *p)
	}''')
seed('C03-shared-mask', 'C03',
 [('densenumfeature.go', """	copy(fake.Missing, f.Missing)

	fake.NumData = make""", """	if f.HasMissing {
		copy(fake.Missing, f.Missing)
	} else {
		fake.Missing = f.Missing
	}

	fake.NumData = make""")],
 'copying a complete feature and then marking a case of the copy missing', 'the case of the original becomes missing too',
 NUM + """	f := nf("1", "2", "3")
	g := f.Copy()
	g.PutMissing(1)
	if f.IsMissing(1) {
		t.Error("marking a case of the copy changed the original")
	}""")
seed('C03-stale-mask', 'C03',
 [('densecatfeature.go', """
	copy(copyf.(*DenseCatFeature).Missing, f.Missing)
""", """
	if f.HasMissing {
		copy(copyf.(*DenseCatFeature).Missing, f.Missing)
	}
""")],
 'copying a complete categorical feature into one that has missing cases', 'the copy keeps missing markers of its earlier contents',
 CAT + """	f := cf("a", "b", "a")
	g := cf("a", "NA", "b")
	f.CopyInTo(g)
	if g.IsMissing(1) {
		t.Error("case 1 is present in the original and missing in the copy")
	}""")
seed('C05-libsvm-gap', 'C05',
 [('libsvm.go', """				lookup[name] = len(data)
				data = append""", """				lookup[name] = xi
				data = append""")],
 'a libsvm file that skips a feature index', 'the skipped features are looked up at the position of a later one',
 """	fm := ParseLibSVM(strings.NewReader("1.0 1:2 4:3\\n2.0 2:1\\n"))
	for name, i := range fm.Map {
		if fm.Data[i].GetName() != name {
			t.Errorf("%v is looked up at %v, which is %v", name, i, fm.Data[i].GetName())
		}
	}""", ('strings',))
seed('C05-contrast-gap', 'C05',
 [('featurematrix.go', """		fake := orig.ShuffledCopy()

		fm.Map[fake.GetName()] = len(fm.Data)
""", """		if orig.NCats() == 1 {
			//a constant has no shuffled version
			continue
		}
		fake := orig.ShuffledCopy()

		fm.Map[fake.GetName()] = nrealfeatures + i
""")],
 'adding contrasts to a matrix with a constant categorical feature', 'contrasts added after a skipped one are looked up past their position',
 """	fm := ParseAFM(strings.NewReader(".\\tA\\tB\\nC:k\\tx\\tx\\nN:a\\t1\\t2\\nC:l\\tx\\tx\\n"))
	fm.AddContrasts(200)
	for name, i := range fm.Map {
		if i >= len(fm.Data) || fm.Data[i].GetName() != name {
			t.Fatalf("%v is looked up at %v of %v", name, i, len(fm.Data))
		}
	}""", ('strings',))
seed('C06-ninther', 'C06',
 [('sortby/sortby.go', """		medianOfThree(cases, vals, m, m-s, m+s)
""", """		if vs[m-s] > vs[m+s] {
			vs[m-s], vs[m+s] = vs[m+s], vs[m-s]
		}
		medianOfThree(cases, vals, m, m-s, m+s)
""")],
 'sorting more than forty cases whose values near the middle are not in order', 'case indexes and values no longer belong together after a sort',
 """	n := 60
	data := make([]float64, n)
	cases := make([]int, n)
	for i := range data {
		data[i] = float64(n - i)
		cases[i] = i
	}
	s := &SortableFeature{make([]float64, n), nil}
	s.Load(&data, &cases)
	s.Sort()
	for i, c := range s.Cases {
		if data[c] != s.Vals[i] {
			t.Fatalf("case %v has value %v, sorted as %v", c, data[c], s.Vals[i])
		}
	}""")
seed('C06-mask-behind', 'C06',
 [('densenumfeature.go', """		missing := f.Missing[targeti]
		f.Missing[targeti] = f.Missing[sourcei]
		f.Missing[sourcei] = missing

		data := f.NumData[targeti]""", """		if f.Missing[targeti] && !f.Missing[sourcei] {
			f.Missing[targeti], f.Missing[sourcei] = false, true
		}

		data := f.NumData[targeti]""")],
 'shuffling cases so that a missing one is drawn for a present one', 'a missing marker stays behind while its value moves',
 NUM + """	f := nf("1", "2", "3", "NA", "5", "6", "NA", "8")
	cases := []int{0, 1, 2, 3, 4, 5, 6, 7}
	allocs := NewBestSplitAllocs(8, f)
	for r := 0; r < 50; r++ {
		f.ShuffleCases(&cases, allocs)
		for i := range cases {
			if f.IsMissing(i) != (f.NumData[i] == 0) {
				t.Fatalf("value %v, missing %v", f.NumData[i], f.IsMissing(i))
			}
		}
	}""")

# ---- concurrency ------------------------------------------------------------------------
import random as _r
_r.seed(1)
_y = [_r.randint(0, 1) for _ in range(60)]
FMDATA = '\n'.join('\t'.join(r) for r in [['.'] + ['c%d' % i for i in range(60)], ['B:t'] + ['ab'[v] for v in _y]] +
                   [['N:%d' % k] + ['%.3f' % (_r.random() + 0.5 * v) for v in _y] for k in range(5)]) + '\n'
RACEGROW = r'''cp "$here/a.fm" "$tmp/a.fm"
go build -race -o "$tmp/growforest" . || exit 2
cd "$tmp" || exit 2
for n in 1 2 3 4 5 6; do
  timeout 60 ./growforest -train a.fm -target B:t -nCores 6 -nTrees 300 -oob @ARGS@ -rfpred o.sf > out 2> err || { head -40 err; exit 1; }
  if grep -q "DATA RACE" err out; then grep -A12 "DATA RACE" err | head -40; exit 1; fi
done
exit 0
'''
RACETEST = r'''echo "{\"Replace\": {\"$PWD/zz_seed_demo_test.go\": \"$here/demo_test.go\"}}" > "$tmp/o.json"
timeout 250 go test -race -vet=off -count=1 -overlay "$tmp/o.json" -run 'TestSeedDemo$' . '''
seed('C20-mean-read-outside', 'C20',
 [('utils.go', """		rm.mutex.Lock()
		rm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)
		rm.Count += weight
""", """		sum := rm.Mean * rm.Count
		rm.mutex.Lock()
		rm.Mean = (sum + weight*val) / (rm.Count + weight)
		rm.Count += weight
""")],
 'two goroutines adding to the same mean at the same moment', 'the mean is computed from a sum read before the lock was taken',
 """	rm := new(RunningMean)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				rm.Add(1.0)
			}
		}()
	}
	wg.Wait()
	if _, n := rm.Read(); n != 16000 {
		t.Error("count", n)
	}""", ['sync'], run=RACETEST)
seed('C20-sum-vote-two-sections', 'C20',
 [('sumballotbox.go', """		bb.Box[casei].Mutex.Lock()
		bb.Box[casei].Sum += v * weight
		bb.Box[casei].Mutex.Unlock()
""", """		sum := bb.TallyNum(casei) + v*weight
		bb.Box[casei].Mutex.Lock()
		bb.Box[casei].Sum = sum
		bb.Box[casei].Mutex.Unlock()
""")],
 'two votes for one case whose read and write sections interleave', 'every access is locked but votes are lost between the two sections',
 """	for try := 0; try < 20; try++ {
		bb := NewSumBallotBox(1)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 20000; i++ {
					bb.Vote(0, "1", 1)
				}
			}()
		}
		wg.Wait()
		if got := bb.TallyNum(0); got != 160000 {
			t.Fatal("votes were lost:", got)
		}
	}""", ['sync'])
seed('C20-counter-fast-path', 'C20',
 [('utils.go', """	sc.mutex.Lock()
	defer sc.mutex.Unlock()
	if sc.Map == nil {
		sc.Map = make(map[int]map[int]int, 0)
	}

""", """	if val == 0 && sc.Map[i] != nil {
		return
	}
	sc.mutex.Lock()
	defer sc.mutex.Unlock()
	if sc.Map == nil {
		sc.Map = make(map[int]map[int]int, 0)
	}

""")],
 'a zero count added while another goroutine adds', 'the map is read without the lock',
 """	sc := new(SparseCounter)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				sc.Add(i, g, i%2)
			}
		}(g)
	}
	wg.Wait()""", ['sync'], run=RACETEST)
seed('C21-mean-returns-locked', 'C21',
 [('utils.go', """		rm.Count += weight
		if rm.Count == 0 {
			log.Print("WeightedAdd reached 0 count!.")
		}
""", """		rm.Count += weight
		if rm.Count == 0 {
			log.Print("WeightedAdd reached 0 count!.")
			rm.Mean = 0
			return
		}
""")],
 'weights that add up to zero', 'the lock stays held and the next use of the mean blocks for ever',
 """	rm := new(RunningMean)
	rm.WeightedAdd(1, 1)
	rm.WeightedAdd(1, -1)
	done := make(chan int)
	go func() {
		rm.Read()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Error("the running mean is locked for ever")
	}""", ['time'])
LEAFSH = r'''go build -o "$tmp/leafcount" . || exit 2
cd "$tmp" || exit 2
printf '.\ta\tb\nN:x\t1\t2\n' > a.fm
printf 'FOREST=RF,TARGET="N:x",NTREES=1\nTREE=0\nNODE=*,PRED=1,SPLITTER="N:x",SPLITTERTYPE=NUMERICAL,LVALUES="1.5",RVALUES="1.5"\nNODE=*L,PRED=1\nNODE=*R,PRED=2\n' > a.sf
@GO@
'''
seed('C21-leafcount-skips-file', 'C21',
 [('leafcount/leafcount.go', """				if err != nil {
					log.Fatal(err)
				}
				defer forestfile.Close()
""", """				if err != nil {
					log.Print(err)
					continue
				}
				defer forestfile.Close()
""")],
 'one of several forest files cannot be opened', 'the worker signals no completion for it and main waits for ever',
 run=LEAFSH.replace('@GO@', 'timeout 20 ./leafcount -fm a.fm -rfpred missing.sf,a.sf -leaves l.tsv > out 2>&1; rc=$?\ncat out; [ $rc != 124 ] && [ $rc != 2 ] || exit 1\n! grep -q "all goroutines are asleep" out'), pkg='leafcount')
seed('C21-last-tree-unsignalled', 'C21',
 [('growforest/growforest.go', """					if treesStarted < nTrees {
						treesStarted++
					} else {
						if nCores > 1 {
							recordingTree.Unlock()
							waitGroup.Done()
						}
						break

					}
""", """					if treesStarted < nTrees {
						treesStarted++
					} else {
						if nCores > 1 {
							recordingTree.Unlock()
							if treesStarted > nCores {
								waitGroup.Done()
							}
						}
						break

					}
""")],
 'as many cores as trees', 'no worker signals its end and main waits for ever',
 run=r'''cp "$here/a.fm" "$tmp/a.fm"
go build -o "$tmp/growforest" . || exit 2
cd "$tmp" || exit 2
timeout 60 ./growforest -train a.fm -target B:t -nCores 4 -nTrees 4 -rfpred o.sf > out 2> err
rc=$?
tail -3 err
exit $rc''', pkg='growforest', files={'a.fm': FMDATA})
seed('C22-tree-recorded-unlocked', 'C22',
 [('growforest/growforest.go', """					if dotest && foresti == nForest-1 {
						trees = append(trees, tree)

						if treesStarted < nTrees {
							//newtree := new(CloudForest.Tree)
							tree = CloudForest.NewTree()
							tree.Target = *targetname
						}
					}
					if progress {
						treesFinished++
""", """					if nCores > 1 && progress {
						recordingTree.Unlock()
					}
					if dotest && foresti == nForest-1 {
						trees = append(trees, tree)

						if treesStarted < nTrees {
							//newtree := new(CloudForest.Tree)
							tree = CloudForest.NewTree()
							tree.Target = *targetname
						}
					}
					if nCores > 1 && progress {
						recordingTree.Lock()
					}
					if progress {
						treesFinished++
""")],
 'several cores, -progress and a test at the end', 'two workers append to the list of trees at once',
 run=RACEGROW.replace('@ARGS@', '-progress -selftest'), pkg='growforest', files={'a.fm': FMDATA})
seed('C22-shared-depths', 'C22',
 [('growforest/growforest.go', """				var depthUsed *[]int
				if mmdpnt != nil {
""", """				if mmdpnt != nil && depthUsed == nil {
"""), ('growforest/growforest.go', """		var recordingTree sync.Mutex
		var waitGroup sync.WaitGroup
""", """		var recordingTree sync.Mutex
		var waitGroup sync.WaitGroup
		var depthUsed *[]int
""")],
 'several cores and importance', 'the workers share the record of the depths at which features were used',
 run=RACEGROW.replace('@ARGS@', '-importance imp.tsv'), pkg='growforest', files={'a.fm': FMDATA})
seed('C22-count-before-lock', 'C22',
 [('growforest/growforest.go', """					////////////// Lock mutext to ouput tree ////////
					if nCores > 1 {
						recordingTree.Lock()
					}
""", """					////////////// Lock mutext to ouput tree ////////
					first := treesFinished == 0
					if nCores > 1 && (first || forestwriter != nil || scikitforest != "" || dotest) {
						recordingTree.Lock()
					}
"""), ('growforest/growforest.go', """						if nCores > 1 {
							recordingTree.Unlock()
							waitGroup.Done()
						}
						break

					}
					if nCores > 1 {
						recordingTree.Unlock()
					}
""", """						if nCores > 1 {
							if first || forestwriter != nil || scikitforest != "" || dotest {
								recordingTree.Unlock()
							}
							waitGroup.Done()
						}
						break

					}
					if nCores > 1 && (first || forestwriter != nil || scikitforest != "" || dotest) {
						recordingTree.Unlock()
					}
""")],
 'several cores and a forest that is neither written nor tested', 'the counters of trees are changed by several workers at once',
 run=RACEGROW.replace('@ARGS@', '-progress').replace('-rfpred o.sf', ''), pkg='growforest', files={'a.fm': FMDATA})

seed('C14-contrast-not-copied', 'C14',
 [('splitallocations.go', """		target.(Feature).Copy().(Target),
		rand""", """		contrastFor(target, nTotalCases),
		rand"""), ('splitallocations.go', """//NewBestSplitAllocs initializes""", """func contrastFor(target Target, n int) Target {
	if f := target.(Feature); f.Length() == n {
		return f.Copy().(Target)
	}
	return target
}

//NewBestSplitAllocs initializes""")],
 'allocations for a sample smaller than the data, and -vet', 'vetting a split shuffles the real target',
 CAT + NUM + """	tgt := cf("a", "b", "a", "b", "b", "a")
	x := nf("1", "2", "3", "4", "5", "6")
	fm := &FeatureMatrix{[]Feature{x, tgt}, map[string]int{"N:x": 0, "C:x": 1}, make([]string, 6)}
	allocs := NewBestSplitAllocs(5, tgt)
	before := append([]int(nil), tgt.CatData...)
	for try := 0; try < 40; try++ {
		cases := []int{0, 1, 2, 3, 4}
		cand := []int{0}
		fm.BestSplitter(tgt, &cases, &cand, 1, nil, 1, false, true, false, false, allocs, 0)
	}
	for i := range before {
		if before[i] != tgt.CatData[i] {
			t.Fatal("the split search changed the target")
		}
	}""")
seed('C14-l1-median', 'C14',
 [('l1target.go', """	m := target.Mean(cases)
	e = target.Error(cases, m)
""", """	m := target.Mean(cases)
	if cs := *cases; len(cs) > 2 && math.IsInf(m, 0) {
		//sums that overflow: use the middle case instead
		for i := 1; i < len(cs); i++ {
			for j := i; j > 0 && target.Less(cs[j], cs[j-1]); j-- {
				cs[j], cs[j-1] = cs[j-1], cs[j]
			}
		}
		m = target.Get(cs[len(cs)/2])
	}
	e = target.Error(cases, m)
""")],
 'an L1 target whose sum overflows', 'scoring a group of cases reorders the case list it was given to read',
 NUM + """	f := nf("1.7e308", "1.7e308", "1", "2")
	l := &L1Target{f}
	cases := []int{0, 1, 2, 3}
	l.Impurity(&cases, nil)
	for i, c := range cases {
		if i != c {
			t.Fatal("scoring reordered the cases:", cases)
		}
	}""")
seed('C14-libsvm-imputes-original', 'C14',
 [('libsvm.go', """	for i, f := range data.Data {
		if i != targeti {
			noTargetFm.Map[f.GetName()] = len(noTargetFm.Data)
			noTargetFm.Data = append(noTargetFm.Data, f.Copy())

		}
	}

	noTargetFm.ImputeMissing()
	encodedfm := noTargetFm.EncodeToNum()

	oucsv := csv.NewWriter(outfile)
	oucsv.Comma = ' '

	for i := 0; i < target.Length(); i++ {""", """	for i, f := range data.Data {
		if i != targeti {
			noTargetFm.Map[f.GetName()] = len(noTargetFm.Data)
			if _, num := f.(NumFeature); !num {
				f = f.Copy()
			}
			noTargetFm.Data = append(noTargetFm.Data, f)

		}
	}

	noTargetFm.ImputeMissing()
	encodedfm := noTargetFm.EncodeToNum()

	oucsv := csv.NewWriter(outfile)
	oucsv.Comma = ' '

	for i := 0; i < target.Length(); i++ {""")],
 'a numeric feature with missing values in a matrix that is written and then used', 'writing the matrix imputes the missing values of the original',
 NUM + """	x, y := nf("1", "NA", "3"), nf("1", "2", "3")
	y.Name = "N:y"
	fm := &FeatureMatrix{[]Feature{x, y}, map[string]int{"N:x": 0, "N:y": 1}, []string{"a", "b", "c"}}
	if err := WriteLibSvm(fm, "N:y", ioutil.Discard); err != nil {
		t.Fatal(err)
	}
	if !x.IsMissing(1) {
		t.Error("writing the matrix imputed the original")
	}""", ['io/ioutil'])
seed('C14-catvals-alias', 'C14',
 [('densecatfeature.go', """	cs := *cases
	// Left := allocs.Left
	// Right := allocs.Right

	cached := allocs.CatVals
""", """	cs := *cases
	// Left := allocs.Left
	// Right := allocs.Right

	if len(allocs.CatVals) < len(f.CatData) {
		allocs.CatVals = append(allocs.CatVals[:0], f.CatData...)
		if cap(allocs.CatVals) > 2*len(f.CatData) {
			allocs.CatVals = f.CatData
		}
	}
	cached := allocs.CatVals
""")],
 'scratch space shorter than the data', 'the search for a split overwrites the category codes of the feature',
 CAT + """	vals := []string{}
	for i := 0; i < 5; i++ {
		vals = append(vals, []string{"a", "b", "c"}[i%3])
	}
	f, tgt := cf(vals...), cf(vals...)
	allocs := NewBestSplitAllocs(3, tgt)
	allocs.CatVals = make([]int, 3, 64)
	cases := []int{0, 1, 2}
	before := append([]int(nil), f.CatData...)
	f.BestCatSplit(tgt, &cases, 1, 5, 1, allocs)
	for i := range before {
		if before[i] != f.CatData[i] {
			t.Fatal("the split search changed the feature:", f.CatData)
		}
	}""")
# ---- growforest: candidates, bags, votes ------------------------------------------------------
GROW = r'''cp "$here"/*.fm "$here"/*.txt "$tmp/" 2> /dev/null
go build -o "$tmp/growforest" . || exit 2
cd "$tmp" || exit 2
run() { timeout 60 ./growforest "$@" > out 2> err || { tail -20 err; exit 1; }; }
@GO@
exit 0
'''
seed('C24-include-readmits', 'C24',
 [('growforest/growforest.go', """			if targeti != i && !re.MatchString(feature.GetName()) {
				if blacklistis[i] == false {
					blacklisted += 1
					blacklistis[i] = true
				}

			}

		}
	}
""", """			if targeti == i {
				continue
			}
			out := !re.MatchString(feature.GetName())
			if out != blacklistis[i] {
				if out {
					blacklisted += 1
				} else {
					blacklisted -= 1
				}
				blacklistis[i] = out
			}
		}
	}
""")],
 'a feature on the blacklist whose name matches -includeRE', '-includeRE lets blacklisted features in again',
 run=GROW.replace('@GO@', '''run -train a.fm -target B:t -nTrees 40 -mTry 2 -blacklist black.txt -includeRE 'N:[0-3]' -rfpred o.sf
if grep -q 'N:2' o.sf; then echo "a tree uses the blacklisted feature"; exit 1; fi
grep -q 'N:1' o.sf'''), pkg='growforest', files={'a.fm': FMDATA, 'black.txt': 'N:2\nN:9\n'})
seed('C24-ace-own-contrast', 'C24',
 [('growforest/growforest.go', """		for i := 0; i < firstace; i++ {
			blacklistis = append(blacklistis, blacklistis[i])
		}
		blacklistis[targeti+firstace] = true
""", """		blacklistis[targeti] = true
		for i := 0; i < firstace; i++ {
			blacklistis = append(blacklistis, blacklistis[firstace-1-i])
		}
""")],
 'ACE analysis with a target that is not the middle feature', 'the shuffled copy of another feature is excluded in place of the shuffled target',
 run=GROW.replace('@GO@', '''run -train a.fm -target B:t -nTrees 60 -ace 3 -mTry 10 -importance imp.tsv -rfpred o.sf
if grep -q 'SPLITTER=B:t:SHUFFLED\\|SPLITTER="B:t:SHUFFLED' o.sf; then echo "a tree uses the shuffled target"; exit 1; fi
grep -q 'N:1' o.sf'''), pkg='growforest', files={'a.fm': FMDATA})
seed('C24-regrown-candidates', 'C24',
 [('growforest/growforest.go', """				canidates := make([]int, 0, len(data.Data))
				for i := 0; i < len(data.Data); i++ {
					if i != targeti && !blacklistis[i] {
						canidates = append(canidates, i)
					}
				}
""", """				canidates := make([]int, 0, len(data.Data))
				for i := 0; i < len(data.Data); i++ {
					if !blacklistis[i] {
						canidates = append(canidates, i)
					}
				}
				//the target goes last, where it is cut off
				for i, v := range canidates {
					if v == targeti {
						last := len(canidates) - 1
						canidates[i], canidates[last] = canidates[last], v
						canidates = canidates[:last]
					}
				}
				if foresti > 0 {
					canidates = append(canidates, targeti%len(data.Data))
				}
""")],
 'more than one forest (-ace)', 'in every forest but the first the target is offered as a predictor of itself',
 run=GROW.replace('@GO@', '''run -train a.fm -target B:t -nTrees 20 -ace 2 -importance imp.tsv -mTry 10 -rfpred o.sf
if grep -q 'SPLITTER=B:t\\|SPLITTER="B:t' o.sf; then echo "a tree splits on the target"; exit 1; fi
grep -q 'N:1' o.sf'''), pkg='growforest', files={'a.fm': FMDATA})
HALFFM = '\n'.join('\t'.join(r) for r in [['.'] + ['c%d' % i for i in range(40)], ['N:x'] + ['%d' % i for i in range(40)],
                    ['C:t'] + [('NA' if i >= 20 else 'b' if i else 'a') for i in range(40)]]) + '\n'
seed('C25-redraw-once', 'C25',
 [('growforest/growforest.go', """								if !targetf.IsMissing(r) {
									cases = append(cases, r)
								}
""", """								if targetf.IsMissing(r) {
									//try again
									r = rand.Intn(nCases)
								}
								cases = append(cases, r)
""")],
 'a target with many missing values, so that the second draw is missing too', 'cases without a target value are sampled into the training set and count as 0',
 run=GROW.replace('@GO@', '''run -train c.fm -target C:t -mTry 1 -nTrees 60 -rfpred o.sf
if grep -q 'LVALUES=1[5-9]\\|LVALUES=2[0-9]' o.sf; then echo "a tree splits off the cases without a target value:"; grep 'LVALUES=1[5-9]\\|LVALUES=2[0-9]' o.sf | head -3; exit 1; fi
grep -q 'LVALUES=' o.sf'''), pkg='growforest', files={'c.fm': HALFFM})
seed('C25-balanceby-both-missing', 'C25',
 [('sampeling.go', """		if !target.IsMissing(i) && !balanceby.IsMissing(i) {
""", """		if target.IsMissing(i) == balanceby.IsMissing(i) {
""")],
 'a case in which the target and the balancing feature are both missing', 'cases without a target value are put into the first class',
 CAT + """	target, by := cf("a", "b", "", "a", "b", ""), cf("x", "y", "", "x", "y", "x")
	s := NewSecondaryBalancedSampler(target, by)
	var cases []int
	s.Sample(&cases, 500)
	for _, c := range cases {
		if target.IsMissing(c) {
			t.Fatal("sampled case", c, "which has no target value")
		}
	}""")
ALTFM = '\n'.join('\t'.join(r) for r in [['.'] + ['c%d' % i for i in range(40)], ['N:x'] + ['%d' % i for i in range(40)],
                    ['C:t'] + ['ab'[i % 2] for i in range(40)]]) + '\n'
OOBERR = '''err=$(sed -n 's/^Out of Bag Error : //p' out)
echo "out of bag error $err"
awk -v e="$err" 'BEGIN { exit !(e > 0.4) }' || { echo "labels that cannot be learned are predicted out of bag"; exit 1; }'''
seed('C30-marks-up-to-known', 'C30',
 [('growforest/growforest.go', """						for _, v := range cases {
							ibcases[v] = true
						}
""", """						for j := 0; j < len(cases) && j < nNonMissing; j++ {
							ibcases[cases[j]] = true
						}
""")],
 '-nSamples larger than the number of cases', 'trees vote out of bag on cases they were trained on, and the error is too small',
 run=GROW.replace('@GO@', 'run -train c.fm -target C:t -mTry 1 -leafSize 1 -nTrees 300 -nSamples 120 -oob\n' + OOBERR), pkg='growforest', files={'c.fm': ALTFM})
seed('C30-subsample-after', 'C30',
 [('growforest/growforest.go', """					if nobag && nSamples != nCases {
						cases = cases[0:0]
						for i := 0; i < nCases; i++ {
							if !targetf.IsMissing(i) {
								cases = append(cases, i)
							}
						}
						CloudForest.SampleFirstN(&cases, &cases, nSamples, 0)

					}

""", ""), ('growforest/growforest.go', """					if jungle {
						tree.GrowJungle(""", """					if nobag && nSamples != nCases {
						cases = cases[0:0]
						for i := 0; i < nCases; i++ {
							if !targetf.IsMissing(i) {
								cases = append(cases, i)
							}
						}
						CloudForest.SampleFirstN(&cases, &cases, nSamples, 0)

					}

					if jungle {
						tree.GrowJungle(""")],
 '-nobag with -nSamples', 'the out of bag cases are those of the tree before',
 run=GROW.replace('@GO@', 'run -train c.fm -target C:t -mTry 1 -leafSize 1 -nTrees 300 -nobag -nSamples 36 -oob\n' + OOBERR), pkg='growforest', files={'c.fm': ALTFM})
seed('C30-incremental-marks', 'C30',
 [('growforest/growforest.go', """						oobcases = oobcases[0:0]
						for i, v := range ibcases {
							if !v {
								oobcases = append(oobcases, i)
							}
						}
""", """						kept := oobcases[:0]
						for i, v := range ibcases {
							if !v && i < cap(oobcases) {
								kept = append(kept, i)
							}
						}
						oobcases = kept
""")],
 'cases past the number of cases with a known target', 'the last cases are never predicted out of bag when the target has missing values',
 run=GROW.replace('@GO@', '''run -train c.fm -target C:t -mTry 1 -nTrees 100 -oob -oobpreds p.tsv
tail -1 p.tsv
test "$(tail -1 p.tsv | cut -f2)" = b || exit 1'''), pkg='growforest', files={'c.fm': '\n'.join('\t'.join(r) for r in [['.'] + ['c%d' % i for i in range(40)], ['N:x'] + ['%d' % i for i in range(40)],
                    ['C:t'] + ['NA' if i < 10 else 'ab'[i > 25] for i in range(40)]]) + '\n'})
seed('C32-reset-in-place', 'C32',
 [('growforest/growforest.go', """							tree = CloudForest.NewTree()
							tree.Target""", """							*tree = *CloudForest.NewTree()
							tree.Target""")],
 '-selftest or -test with more than one tree per core', 'the trees kept for prediction are all the same tree',
 run=GROW.replace('@GO@', '''run -train c.fm -target C:t -mTry 1 -leafSize 1 -nTrees 600 -selftest
grep Classified out
n=$(sed -n 's/^Classified: \\([0-9]*\\) .*/\\1/p' out)
test "$n" -ge 34 || { echo "the kept trees do not vote as a forest"; exit 1; }'''), pkg='growforest', files={'c.fm': ALTFM})
seed('C32-write-when-boosting', 'C32',
 [('growforest/growforest.go', """					if forestwriter != nil && foresti == nForest-1 {
						forestwriter""", """					if forestwriter != nil && (boost || foresti == nForest-1) {
						forestwriter""")],
 '-ace together with boosting', 'the trees of the permuted forests are written to the predictor as well',
 run=GROW.replace('@GO@', '''run -train c.fm -target C:t -mTry 1 -leafSize 1 -nTrees 5 -adaboost -ace 2 -importance imp.tsv -rfpred p.sf
test "$(grep -c '^TREE' p.sf)" -le 5 || { echo "more trees written than asked for"; exit 1; }'''), pkg='growforest', files={'c.fm': ALTFM})
seed('C32-no-stumps', 'C32',
 [('growforest/growforest.go', """					if scikitforest != "" {
						skt :=""", """					if scikitforest != "" && tree.Root.Splitter != nil {
						skt :=""")],
 '-scikitforest and a tree that finds no split', 'trees that are a single leaf are missing from the scikit forest',
 run=GROW.replace('@GO@', '''run -train c.fm -target C:t -mTry 1 -leafSize 30 -nTrees 7 -scikitforest s.json
cat s.json | head -c 600
test "$(grep -o node_count s.json | wc -l)" = 7 || { echo; echo "trees are missing"; exit 1; }'''), pkg='growforest', files={'c.fm': ALTFM})
seed('C32-extra-tree-per-core', 'C32',
 [('growforest/growforest.go', """					if treesStarted < nTrees {
						treesStarted++
					} else {""", """					if treesStarted < nTrees || treesFinished < nTrees && progress {
						treesStarted++
					} else {""")],
 '-progress with several cores', 'more trees are grown than asked for',
 run=GROW.replace('@GO@', '''run -train c.fm -target C:t -mTry 1 -leafSize 1 -nTrees 9 -nCores 4 -oob -progress -rfpred p.sf
test "$(grep -c '^TREE' p.sf)" = 9 || { echo "not the number of trees asked for"; exit 1; }'''), pkg='growforest', files={'c.fm': ALTFM})
seed('C34-vetted-splits', 'C34',
 [('tree.go', ("if importance != nil {\n\t\t\t\t\t(*importance)[fi]", 0), "if importance != nil && !vet {\n\t\t\t\t\t(*importance)[fi]")],
 '-vet together with -importance', 'splits found while vetting are left out of the importance totals',
 NUM + CAT + """	vals, labels := []string{}, []string{}
	for i := 0; i < 40; i++ {
		vals = append(vals, fmt.Sprint(i))
		labels = append(labels, []string{"a", "b"}[i/20])
	}
	f, g := nf(vals...), cf(labels...)
	fm := &FeatureMatrix{Data: []Feature{f, g}, Map: map[string]int{"N:x": 0, "C:x": 1}}
	cases := []int{}
	for i := 0; i < 40; i++ {
		cases = append(cases, i)
	}
	imp := NewRunningMeans(2)
	tree := NewTree()
	tree.Grow(fm, g, cases, []int{0}, nil, 1, 1, 0, false, false, true, false, false, imp, nil, NewBestSplitAllocs(40, g))
	splits := 0
	tree.Root.Climb(func(n *Node) {
		if n.Splitter != nil {
			splits++
		}
	})
	_, n := (*imp)[0].Read()
	if splits == 0 || int(n) != splits {
		t.Error("splits", splits, "credited", n)
	}""", imports=('fmt',))
seed('C34-unused-left-out', 'C34',
 [('growforest/growforest.go', """				meanMinDepth, treeCount :=""", """				if mean <= 0 {
					continue
				}
				meanMinDepth, treeCount :=""")],
 'a feature that is never split on', 'features no tree used are missing from the importance file',
 run=GROW.replace('@GO@', '''run -train c.fm -target C:t -mTry 1 -leafSize 30 -nTrees 3 -importance imp.tsv
test "$(wc -l < imp.tsv)" = "$(($(wc -l < c.fm) - 1))" || { cat imp.tsv; echo "not every feature is listed"; exit 1; }'''), pkg='growforest', files={'c.fm': ALTFM})
seed('C26-stale-counts', 'C26',
 [('adaboosttarget.go', """		t.CountPerCat(&cases, &counter)

		var m, mc int""", """		if len(cases) > 1 {
			t.CountPerCat(&cases, &counter)
		}

		var m, mc int""")],
 'a leaf with a single case', 'the majority of a leaf with one case is taken to be that of the leaf before',
 CAT + """	target := NewAdaBoostTarget(cf("a", "a", "a", "b", "b", "b"))
	leaves, preds := [][]int{{0, 1, 2, 3, 4}, {5}}, []string{"a", "b"}
	target.Boost(&leaves, &preds)
	if target.Weights[3] <= target.Weights[0] || target.Weights[3] <= target.Weights[5] {
		t.Error("the misclassified case does not gain weight", target.Weights)
	}""")
seed('C26-weightless-trees', 'C26',
 [('growforest/growforest.go', """						tree.Weight = weight
""", """						if weight > 0 {
							tree.Weight = weight
						}
""")],
 'a tree whose error is a half or more', 'a tree that boosting gives no weight votes with full weight',
 run=GROW.replace('@GO@', '''run -train c.fm -target C:t -mTry 1 -leafSize 39 -nTrees 3 -adaboost -rfpred p.sf
grep ^TREE p.sf
test "$(grep -c '^TREE' p.sf)" = "$(grep -c '^TREE.*WEIGHT=0' p.sf)" || { echo "trees without weight vote"; exit 1; }'''), pkg='growforest', files={'c.fm': ALTFM})
seed('C26-forgets-rounds', 'C26',
 [('gradboostclasstarget.go', """		pred := f.Pred.Get(i) + f.LearnRate*predicted
		f.Pred.Put(i, pred)
""", """		pred := f.Prior + f.LearnRate*predicted
		f.Pred.Put(i, pred)
""")],
 'more than one round of boosting', 'every round forgets what the trees before predicted',
 CAT + """	target := NewGradBoostClassTarget(cf("a", "a", "b", "b"), .5, "a")
	leaves, preds := [][]int{{0, 1}, {2, 3}}, []string{"1", "-1"}
	target.Boost(&leaves, &preds)
	target.Boost(&leaves, &preds)
	if want := 1 - Expit(1); math.Abs(target.Get(0)-want) > 1e-9 {
		t.Error("residual", target.Get(0), "want", want)
	}""", imports=('math',))
SIDES = """	sides := func(f Feature, split interface{}, n int) (l, r int) {
		for i := 0; i < n; i++ {
			if f.GoesLeft(i, f.DecodeSplit(split)) {
				l++
			} else {
				r++
			}
		}
		return
	}
	_ = sides
"""
seed('C09-random-threshold', 'C09',
 [('densenumfeature.go', """			leafSize = leafSize + allocs.Rnd.Intn(stop-leafSize)
""", """			leafSize = leafSize + allocs.Rnd.Intn(ncases-leafSize)
""")],
 'extra random trees and a draw near the end of the sorted cases', 'a random threshold can leave fewer than leafSize cases on the right',
 NUM + """	f := nf("0", "1", "2", "3", "4", "5", "6", "7", "8", "9")
	target := nf("0", "0", "0", "0", "0", "1", "1", "1", "1", "1")
	for n := 0; n < 200; n++ {
		allocs := NewBestSplitAllocs(10, target)
		cases := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
		split, dec, _ := f.BestSplit(target, &cases, target.Impurity(&cases, allocs.Counter), 4, true, allocs)
		if dec <= minImp {
			continue
		}
		cases = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
		l, r, _ := f.Split(split, cases)
		if len(l) < 4 || len(r) < 4 {
			t.Fatal("leaf sizes", len(l), len(r))
		}
	}""")
seed('C09-binary-right', 'C09',
 [('densecatfeature.go', """	if l < leafSize || len(cs)-r < leafSize {
		constant = true
""", """	if l < leafSize || r < leafSize {
		constant = true
""")],
 'a feature with two categories, few cases of which have the first', 'the right side of a binary split may hold fewer cases than the leaf size',
 CAT + """	f := cf("a", "b", "b", "b", "b", "b", "b", "b")
	target := cf("x", "y", "y", "y", "y", "y", "y", "y")
	allocs := NewBestSplitAllocs(8, target)
	cases := []int{0, 1, 2, 3, 4, 5, 6, 7}
	_, dec, _ := f.BestSplit(target, &cases, target.Impurity(&cases, allocs.Counter), 3, false, allocs)
	if dec > minImp {
		t.Error("found a split that leaves one case on a side with leafSize 3")
	}""")
seed('C09-jungle-depth', 'C09',
 [('tree.go', """		for i := firstThisLevel; i < lastThisLevel; i++ {
""", """		if depth == maxDepth {
			//what has been combined into one node is cheap to divide once more
			maxDepth++
		}
		for i := firstThisLevel; i < lastThisLevel; i++ {
""")],
 'a jungle with a maximum depth of one or more', 'a jungle grows deeper than the maximum depth',
 NUM + """	f := nf("0", "1", "2", "3", "4", "5", "6", "7")
	target := nf("0", "5", "1", "7", "2", "9", "3", "8")
	fm := &FeatureMatrix{[]Feature{f, target}, map[string]int{"N:x": 0, "N:y": 1}, []string{"0", "1", "2", "3", "4", "5", "6", "7"}}
	tree := NewTree()
	tree.Root = new(Node)
	tree.Target = "N:y"
	tree.GrowJungle(fm, target, []int{0, 1, 2, 3, 4, 5, 6, 7}, []int{0}, nil, 1, 1, 1, false, false, false, false, false, nil, nil, NewBestSplitAllocs(8, target))
	deepest := 0
	tree.Root.Recurse(func(n *Node, cases []int, depth int) {
		if depth > deepest {
			deepest = depth
		}
	}, fm, []int{0, 1, 2, 3, 4, 5, 6, 7}, 0)
	if deepest > 1 {
		t.Error("depth", deepest)
	}""")
BIGCATS = """	f := &DenseCatFeature{CatMap: &CatMap{map[string]int{}, []string{}}, Name: "C:x", RandomSearch: true}
	target := &DenseCatFeature{CatMap: &CatMap{map[string]int{}, []string{}}, Name: "C:y"}
	n := %d
	var cases []int
	for i := 0; i < 4*n; i++ {
		f.Append(fmt.Sprint("c", i%%n))
		target.Append(fmt.Sprint("t", i%%n%%2))
		cases = append(cases, i)
	}
	allocs := NewBestSplitAllocs(len(cases), target)
	for k := 0; k < 20; k++ {
		parent := target.Impurity(&cases, allocs.Counter)
		split, dec, _ := f.BestSplit(target, &cases, parent, 1, false, allocs)
		l, r, _ := f.Split(split, append([]int(nil), cases...))
		if got := parent - target.SplitImpurity(&l, &r, nil, allocs); math.Abs(got-dec) > 1e-9 {
			t.Fatal("the split returned is worth", got, "and is said to be worth", dec)
		}
	}"""
seed('C10-big-alias', 'C10',
 [('densecatfeature.go', """			bestSplit.Set(bits)
""", """			bestSplit = bits
""")],
 'a random search over a feature with more than 30 categories', 'the best split is the number the next tries are drawn into',
 BIGCATS % 40, imports=('fmt', 'math'))
seed('C10-iteration-count', 'C10',
 [('densecatfeature.go', """			bestSplit = bits
			impurityDecrease = innerimp
""", """			bestSplit = i
			impurityDecrease = innerimp
""")],
 'a random search over a feature with 11 to 30 categories', 'the number of the try is returned in place of the categories tried',
 BIGCATS % 14, imports=('fmt', 'math'))
seed('C10-vet-outside', 'C10',
 [('featurematrix.go', """			allocs.ContrastTarget.(Feature).ShuffleCases(casept, allocs)
""", """			allocs.ContrastTarget.(Feature).ShuffleCases(cases, allocs)
""")],
 'vetting together with out of bag evaluation', 'the copy of the target is not permuted over the cases the split is vetted on',
 NUM + CAT + """	f := nf("0", "1", "2", "3", "0", "1", "2", "3")
	target := cf("a", "a", "b", "b", "a", "a", "b", "b")
	fm := &FeatureMatrix{[]Feature{f, target}, map[string]int{"N:x": 0, "C:x": 1}, []string{"0", "1", "2", "3", "4", "5", "6", "7"}}
	kept := 0
	for k := 0; k < 200; k++ {
		allocs := NewBestSplitAllocs(8, target)
		cases, oob, cands := []int{0, 1, 2, 3}, []int{4, 5, 6, 7}, []int{0}
		_, split, _, _ := fm.BestSplitter(target, &cases, &cands, 1, &oob, 1, false, true, true, false, allocs, 0)
		if split != nil {
			kept++
		}
	}
	if kept == 0 {
		t.Error("a perfect split never survives vetting: its contrast is as good as the target")
	}""")
seed('C10-evaloob-score', 'C10',
 [('featurematrix.go', """			inerImp = target.Impurity(oob, allocs.Counter) - target.SplitImpurity(&l, &r, &m, allocs)
""", """			if oobImp := target.Impurity(oob, allocs.Counter) - target.SplitImpurity(&l, &r, &m, allocs); oobImp > inerImp {
				inerImp = oobImp
			}
""")],
 'out of bag evaluation of a split that is worse out of bag', 'a split keeps its in bag score where its out of bag score is lower',
 NUM + CAT + """	f := nf("0", "1", "2", "3", "0", "1", "2", "3")
	target := cf("a", "a", "b", "b", "a", "b", "a", "b")
	fm := &FeatureMatrix{[]Feature{f, target}, map[string]int{"N:x": 0, "C:x": 1}, []string{"0", "1", "2", "3", "4", "5", "6", "7"}}
	allocs := NewBestSplitAllocs(8, target)
	cases, oob, cands := []int{0, 1, 2, 3}, []int{4, 5, 6, 7}, []int{0}
	_, split, dec, _ := fm.BestSplitter(target, &cases, &cands, 1, &oob, 1, false, false, true, false, allocs, 0)
	if split != nil {
		t.Error("a split without any worth out of bag is returned with", dec)
	}""")
MISSDEMO = """	cases := []int{}
	for i := 0; i < target.Length(); i++ {
		cases = append(cases, i)
	}
	allocs := NewBestSplitAllocs(len(cases), target)
	parent := target.Impurity(&cases, allocs.Counter)
	split, dec, _ := f.BestSplit(target, &cases, parent, 1, false, allocs)
	if dec > minImp {
		l, r, m := f.Split(split, append([]int(nil), cases...))
		if got := parent - target.SplitImpurity(&l, &r, &m, allocs); math.Abs(got-dec) > 1e-9 {
			t.Error("the split returned is worth", got, "and is said to be worth", dec)
		}
	}"""
seed('C13-late-missing', 'C13',
 [('densecatfeature.go', """		if nmissing > 0 {
			missingimp = target.Impurity(allocs.Right, allocs.Counter)
		}
		tosplit = allocs.NonMissing""", """		tosplit = allocs.NonMissing"""),
  ('densecatfeature.go', """	if f.HasMissing && nmissing > 0 && impurityDecrease > minImp {
""", """	if f.HasMissing && nmissing > 0 && impurityDecrease > minImp {
		//only needed when there is a split
		missingimp = target.Impurity(allocs.Right, allocs.Counter)
""")],
 'a feature with six or more categories and missing values', 'the missing cases are looked at after the search has used their list as a scratch list',
 CAT + """	f := cf("a", "b", "c", "d", "e", "f", "a", "b", "c", "d", "e", "f", "NA", "NA", "NA", "NA")
	target := cf("x", "x", "x", "y", "y", "z", "x", "x", "x", "y", "y", "z", "z", "z", "z", "z")
""" + MISSDEMO, imports=('math',))
seed('C13-one-missing', 'C13',
 [('densenumfeature.go', """		if nmissing > 0 {
			missingimp = target""", """		if nmissing > 1 && nonmissingparentImp != parentImp {
			missingimp = target""")],
 'a target whose impurity is not zero for a single case, or missing cases as impure as the rest', 'the missing branch is taken for pure',
 NUM + CAT + """	f := nf("1", "2", "3", "4", "NA", "NA")
	target := cf("x", "x", "y", "y", "x", "y")
""" + MISSDEMO, imports=('math',))
seed('C13-weights', 'C13',
 [('densenumfeature.go', """	if f.HasMissing && nmissing > 0 && impurityDecrease > minImp {
""", """	if f.HasMissing && nmissing > 0 && missingimp > 0 && impurityDecrease > minImp {
""")],
 'missing cases that all have the same target value', 'a pure missing branch is left out of the score',
 NUM + CAT + """	f := nf("1", "2", "3", "4", "NA", "NA")
	target := cf("x", "x", "y", "x", "x", "x")
""" + MISSDEMO, imports=('math',))

seed('C27-modei-map', 'C27',
 [('densecatfeature.go', """	counts := make([]int, f.NCats())
	for _, i := range *cases {
		if !f.Missing[i] {
			counts[f.CatData[i]] += 1
		}

	}
	max := 0""", """	counts := make(map[int]int)
	for _, i := range *cases {
		if !f.Missing[i] {
			counts[f.CatData[i]] += 1
		}

	}
	max := 0""")],
 'a tie between the most frequent categories, and the iteration to start at the later one', 'the mode of a node changes from run to run',
 CAT + """	f := cf("a", "b", "a", "b", "c", "c")
	cases := []int{0, 1, 2, 3, 4, 5}
	for i := 0; i < 200; i++ {
		if m := f.Mode(&cases); m != "a" {
			t.Fatal("the mode is", m, "in turn", i)
		}
	}""")
seed('C27-error-sum', 'C27',
 [('catballotbox.go', """	correct := make([]int, ncats)
	total""", """	correct := make(map[int]int, ncats)
	total""")],
 'three or more categories with error rates that round differently in different orders', 'the error of the same votes differs in its last digits from run to run',
 CAT + """	labels := []string{}
	for c := 0; c < 9; c++ {
		for j := 0; j < c+2; j++ {
			labels = append(labels, string(rune('a'+c)))
		}
	}
	f := cf(labels...)
	bb := NewCatBallotBox(len(labels))
	for i, l := range labels {
		if i%5 == 1 {
			l = "a"
		}
		bb.Vote(i, l, 1)
	}
	e := bb.TallyError(f)
	for i := 0; i < 500; i++ {
		if got := bb.TallyError(f); got != e {
			t.Fatal(got, "is not", e)
		}
	}""")
seed('C27-fraction-split', 'C27',
 [('forestwriter.go', """	for k := range input {
		keys = append(keys, k)
	}
""", """	first := ""
	for k := range input {
		if first == "" {
			first = k
			continue
		}
		keys = append(keys, k)
	}
"""), ('forestwriter.go', """	return "\\"" + strings.Join(keys, ":") + "\\""
""", """	if first != "" {
		keys = append([]string{first}, keys...)
	}
	return "\\"" + strings.Join(keys, ":") + "\\""
""")],
 'a categorical split with two or more labels on the left', 'the forest file of the same forest differs from run to run',
 """	fw := NewForestWriter(&bytes.Buffer{})
	want := fw.DescribeMap(map[string]bool{"a": true, "b": true, "c": true, "d": true})
	for i := 0; i < 200; i++ {
		if got := fw.DescribeMap(map[string]bool{"a": true, "b": true, "c": true, "d": true}); got != want {
			t.Fatal(got, "is not", want)
		}
	}""", imports=('bytes',))
seed('C28-cases-last-error', 'C28',
 [('featurematrix.go', """		_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))
		if err != nil {
			return
		}

	}
""", """		_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))

	}
""")],
 'a write that fails for a feature that is not the last', 'the error of all but the last feature is forgotten',
 NUM + CAT + """	f := nf("0", "1", "2")
	fm := &FeatureMatrix{[]Feature{f, f, f}, map[string]int{"N:x": 0}, []string{"a", "b", "c"}}
	for at := 1; at <= 4; at++ {
		n := 0
		w := writerFunc(func(b []byte) (int, error) {
			n++
			if n == at {
				return 0, errors.New("disk full")
			}
			return len(b), nil
		})
		if err := fm.WriteCases(w, []int{0, 1, 2}); err == nil {
			t.Error("the failure of write", at, "is not reported")
		}
	}
}

type writerFunc func([]byte) (int, error)

func (f writerFunc) Write(b []byte) (int, error) {
	return f(b)""", imports=('errors',))
seed('C28-cases-buffer', 'C28',
 [('featurematrix.go', """	_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))
	if err != nil {
		return
	}

	for""", """	out := bufio.NewWriter(w)
	defer out.Flush()
	_, err = fmt.Fprintln(out, strings.Join(vals, "\\t"))
	if err != nil {
		return
	}

	for"""), ('featurematrix.go', """		_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))
""", """		_, err = fmt.Fprintln(out, strings.Join(vals, "\\t"))
"""), ('featurematrix.go', """import (
""", """import (
	"bufio"
""")],
 'a writer that fails at the end of the output', 'the failure happens when the function has returned its error already',
 NUM + CAT + """	f := nf("0", "1", "2")
	fm := &FeatureMatrix{[]Feature{f}, map[string]int{"N:x": 0}, []string{"a", "b", "c"}}
	w := writerFunc(func(b []byte) (int, error) { return 0, errors.New("disk full") })
	if err := fm.WriteCases(w, []int{0, 1, 2}); err == nil {
		t.Error("a failing writer is not reported")
	}
}

type writerFunc func([]byte) (int, error)

func (f writerFunc) Write(b []byte) (int, error) {
	return f(b)""", imports=('errors',))
seed('C28-toafm-goes-on', 'C28',
 [('utils/toafm/main.go', """		err = data.WriteCases(outfile, cases)
		if err != nil {
			log.Fatal(err)
		}
""", """		if err := data.WriteCases(outfile, cases); err != nil {
			log.Print(err)
		}
""")],
 'a disk that is full', 'toafm ends with success and a truncated file',
 run=r"""go build -o "$tmp/toafm" . || exit 2
cd "$tmp" || exit 2
printf '.\ta\tb\nN:x\t1\t2\n' > a.fm
timeout 20 ./toafm -data a.fm -out b.fm > log 2>&1 || { cat log; exit 1; }
cmp a.fm b.fm || exit 1
! timeout 20 ./toafm -data a.fm -out /dev/full > log 2>&1 || { cat log; exit 1; }
""", pkg='utils/toafm')
seed('C18-lvalues-syntax-only', 'C18',
 [('forestreader.go', """					if err != nil {
						log.Print("Error parsing lvalues value ", err)
""", """					if errors.Is(err, strconv.ErrRange) {
						log.Print("Error parsing lvalues value ", err)
""")],
 'a numerical split whose value is no number at all', 'the split is read as one at zero and nobody is told',
 """	for _, v := range []string{"zzz", "", "1e999"} {
		src := "FOREST=RF,TARGET=\\"N:y\\"\\nTREE=0,TARGET=\\"N:y\\"\\nNODE=*,PRED=1,SPLITTER=\\"N:x\\",SPLITTERTYPE=NUMERICAL,LVALUES=" + v + ",RVALUES=" + v + "\\nNODE=*L,PRED=1\\nNODE=*R,PRED=2\\n"
		if _, err := NewForestReader(strings.NewReader(src)).ReadForest(); err == nil {
			t.Errorf("LVALUES=%v is not reported", v)
		}
	}""", imports=('strings',))
seed('C18-afm-skips-ragged', 'C18',
 [('featurematrix.go', """		} else if err != nil {
			log.Print("Error:", err)
			return nil
		}
		data = append(data, ParseFeature(record))
""", """		} else if pe, ok := err.(*csv.ParseError); ok && pe.Err == csv.ErrFieldCount && count > 0 {
			log.Print("Skipping short row:", err)
			continue
		} else if err != nil {
			log.Print("Error:", err)
			return nil
		}
		data = append(data, ParseFeature(record))
""")],
 'a row after the first that is cut short', 'features are left out of the matrix without an error',
 """	src := ".\\ta\\tb\\nN:x\\t1\\t2\\nN:y\\t1\\nN:z\\t3\\t4\\n"
	if fm := ParseAFM(strings.NewReader(src)); fm != nil {
		t.Error("a matrix with a short row is read as", len(fm.Data), "features")
	}
	if fm := ParseAFM(strings.NewReader(".\\ta\\tb\\nN:x\\t1\\t2\\n")); fm == nil || len(fm.Data) != 1 {
		t.Error("a good matrix is not read")
	}""", imports=('strings',))
seed('C18-libsvm-qid', 'C18',
 [('libsvm.go', """			if err != nil {
				log.Print("Atoi error: ", err, " Line ", i, " Parsing: ", v)
""", """			if err != nil && len(parts) == 2 {
				//ranking data has a query id up front
				continue
			}
			if err != nil {
				log.Print("Atoi error: ", err, " Line ", i, " Parsing: ", v)
""")],
 'an entry with a feature index that is no number', 'the entry is dropped',
 """	if fm := ParseLibSVM(strings.NewReader("1 1:2 2:3\\n0 1:4 2x:5\\n")); fm != nil {
		t.Error("an entry without an index is dropped")
	}
	if fm := ParseLibSVM(strings.NewReader("1 1:2 2:3\\n0 1:4 2:5\\n")); fm == nil || len(fm.Data) != 3 {
		t.Error("good data are not read")
	}""", imports=('strings',))
seed('C18-blacklist-cut', 'C18',
 [('growforest/growforest.go', """			id, err := tsv.Read()
			if err == io.EOF {
				break
			} else if err != nil {
				log.Fatal(err)
			}
""", """			id, err := tsv.Read()
			if err != nil {
				if err != io.EOF {
					log.Print(err)
				}
				break
			}
""")],
 'a blacklist with a line that cannot be read', 'the features after that line are used',
 run=GROW.replace('@GO@', '''run -train a.fm -target B:t -nTrees 4 -mTry 2 -blacklist good.txt -rfpred o.sf
if timeout 60 ./growforest -train a.fm -target B:t -nTrees 4 -mTry 2 -blacklist black.txt -rfpred o.sf > out 2>&1; then echo "half a blacklist is used"; exit 1; fi'''), pkg='growforest', files={'a.fm': FMDATA, 'good.txt': 'N:2\n', 'black.txt': 'N:2\nN:"9\nN:1\n'})
seed('C19-reader-cut-line', 'C19',
 [('forestreader.go', """		parsed := fr.ParseRfAcePredictorLine(line)
""", """		parsed := make(map[string]string)
		if err == nil || strings.Contains(line, "SPLITTER") {
			parsed = fr.ParseRfAcePredictorLine(line)
		} else {
			//the file was cut
			return
		}
""")],
 'a forest file whose last leaf is not followed by a newline', 'the last leaf is lost',
 """	src := "TREE=0,TARGET=\\"N:y\\"\\nNODE=*,PRED=1,SPLITTER=\\"N:x\\",SPLITTERTYPE=NUMERICAL,LVALUES=2,RVALUES=2\\nNODE=*L,PRED=1\\nNODE=*R,PRED=2"
	f, err := NewForestReader(strings.NewReader(src)).ReadForest()
	if err != nil || len(f.Trees) != 1 || f.Trees[0].Root.Right == nil || f.Trees[0].Root.Right.Pred != "2" {
		t.Error("the last node is lost", err)
	}""", imports=('strings',))
seed('C19-libsvm-bare-label', 'C19',
 [('libsvm.go', """		vals := strings.Fields(line)

		if i == 0 {
""", """		vals := strings.Fields(line)
		if err == io.EOF && len(vals) < 2 {
			break
		}

		if i == 0 {
""")],
 'a last line without a newline that holds a label and no features', 'the last case is lost',
 """	for _, src := range []string{"1 1:2\\n0\\n", "1 1:2\\n0"} {
		fm := ParseLibSVM(strings.NewReader(src))
		if fm == nil || fm.Data[0].Length() != 2 {
			t.Errorf("%q is not read as two cases", src)
		}
	}""", imports=('strings',))

RT = """	rt := func(f *Forest) *Forest {
		var b bytes.Buffer
		NewForestWriter(&b).WriteForest(f)
		got, err := NewForestReader(&b).ReadForest()
		if err != nil {
			t.Fatal(err)
		}
		return got
	}
	_ = rt
"""
seed('C16-weight-one-left-out', 'C16',
 [('forestwriter.go', """	if weight >= 0.0 {
""", """	if weight >= 0.0 && weight != 1.0 {
""")],
 'a tree whose weight is exactly 1', 'a tree of weight 1 is read back unweighted (-1), so it counts otherwise in a boosted vote',
 RT + """	for _, w := range []float64{0, 0.5, 1, 2.25} {
		f := &Forest{Target: "C:y"}
		tree := NewTree()
		tree.Target = "C:y"
		tree.Weight = w
		tree.Root.Pred = "a"
		f.Trees = append(f.Trees, tree)
		if got := rt(f); len(got.Trees) != 1 || got.Trees[0].Weight != w {
			t.Error("weight", w, got.Trees[0].Weight)
		}
	}""", ['bytes'])
seed('C16-split-value-short', 'C16',
 [('forestwriter.go', """LVALUES=%v,RVALUES=%v", n.Splitter.Value""", """LVALUES=%.7g,RVALUES=%v", n.Splitter.Value""")],
 'a split value with more than seven digits', 'cases near the split go the other way after saving',
 RT + """	f := &Forest{Target: "C:y"}
	tree := NewTree()
	tree.Root.Pred = "a"
	tree.Root.Splitter = &Splitter{Feature: "N:x", Numerical: true, Value: 1.23456789012}
	tree.Root.Left = &Node{Pred: "a"}
	tree.Root.Right = &Node{Pred: "b"}
	f.Trees = append(f.Trees, tree)
	if got := rt(f); got.Trees[0].Root.Splitter.Value != 1.23456789012 {
		t.Error("value", got.Trees[0].Root.Splitter.Value)
	}""", ['bytes'])
seed('C16-blank-category', 'C16',
 [('forestreader.go', """						splitter.Left[f] = true
""", """						if f != "" {
							splitter.Left[f] = true
						}
""")],
 'a categorical split whose left side names the empty category', 'cases with an empty label go right after saving',
 RT + """	f := &Forest{Target: "C:y"}
	tree := NewTree()
	tree.Root.Pred = "a"
	tree.Root.Splitter = &Splitter{Feature: "C:x", Left: map[string]bool{"": true, "u": true}}
	tree.Root.Left = &Node{Pred: "a"}
	tree.Root.Right = &Node{Pred: "b"}
	f.Trees = append(f.Trees, tree)
	got := rt(f).Trees[0].Root.Splitter.Left
	if len(got) != 2 || !got[""] || !got["u"] {
		t.Error("left", got)
	}""", ['bytes'])
seed('C16-missing-below-missing', 'C16',
 [('forestwriter.go', """	if n.Splitter != nil && n.Missing != nil {
		fw.WriteNodeAndChildren(n.Missing, path+"M")""", """	if n.Splitter != nil && n.Missing != nil && !strings.HasSuffix(path, "M") {
		fw.WriteNodeAndChildren(n.Missing, path+"M")""")],
 'a missing branch directly below another missing branch', 'the inner missing branch is not saved',
 RT + """	f := &Forest{Target: "C:y"}
	tree := NewTree()
	s := &Splitter{Feature: "N:x", Numerical: true, Value: 1}
	leaf := func(p string) *Node { return &Node{Pred: p} }
	tree.Root.Pred = "a"
	tree.Root.Splitter = s
	tree.Root.Left, tree.Root.Right = leaf("a"), leaf("b")
	m := &Node{Pred: "a", Splitter: &Splitter{Feature: "N:z", Numerical: true, Value: 2}, Left: leaf("a"), Right: leaf("b"), Missing: leaf("c")}
	tree.Root.Missing = m
	f.Trees = append(f.Trees, tree)
	got := rt(f).Trees[0].Root
	if got.Missing == nil || got.Missing.Left == nil || got.Missing.Missing == nil || got.Missing.Missing.Pred != "c" {
		t.Error("the branch is gone")
	}""", ['bytes'])
seed('C16-negative-intercept', 'C16',
 [('forestreader.go', """			i, ok := parsed["INTERCEPT"]
			if ok {""", """			i, ok := parsed["INTERCEPT"]
			if ok && i != "" && i[0] != '-' {""")],
 'a boosted forest whose intercept is negative', 'the intercept is read back as 0',
 RT + """	for _, x := range []float64{2.5, 0, -2.5} {
		f := &Forest{Target: "N:y", Intercept: x}
		tree := NewTree()
		tree.Root.Pred = "1"
		f.Trees = append(f.Trees, tree)
		if got := rt(f); got.Intercept != x {
			t.Error("intercept", x, got.Intercept)
		}
	}""", ['bytes'])
seed('C16-addnode-twin-branches', 'C16',
 [('tree.go', """				if loc.Missing == nil {
					loc.Missing = n
				}""", """				if loc.Missing == nil && (loc.Left != nil || loc.Right != nil) {
					loc.Missing = n
				} else if loc.Missing == nil {
					loc.Missing = &Node{Pred: pred}
				}""")],
 'a node whose only branch is the one for missing values and splits further', 'its splitter is lost',
 """	tree := new(Tree)
	s := &Splitter{Feature: "N:x", Numerical: true, Value: 1}
	tree.AddNode("*", "a", s)
	tree.AddNode("*M", "b", s)
	if tree.Root.Missing == nil || tree.Root.Missing.Splitter != s {
		t.Error("the splitter is lost")
	}""")
seed('C29-last-share-short', 'C29',
 [('sampeling.go', """		b = rand.Intn(s.Total)
""", """		b = 0
		if s.Total > 1 {
			b = rand.Intn(s.Total - 1)
		}
""")],
 'a last balancing category with a single case', 'that category is never drawn',
 CAT + """	y := cf("a", "b", "a", "b", "a")
	by := cf("u", "u", "u", "u", "v")
	s := NewSecondaryBalancedSampler(y, by)
	seen := map[int]bool{}
	var got []int
	s.Sample(&got, 5000)
	for _, i := range got {
		seen[i] = true
	}
	if len(seen) != 5 {
		t.Error(seen)
	}""")
seed('C29-one-class-per-sample', 'C29',
 [('sampeling.go', """	for i := 0; i < n; i++ {
		c = rand.Intn(nCases)
""", """	for i := 0; i < n; i++ {
		if i%nCases == 0 {
			c = rand.Intn(nCases)
		}
		c = (c + 1) % nCases
""")],
 'a number of draws that is no multiple of the number of classes', 'the classes follow each other instead of being drawn',
 CAT + """	y := cf("a", "b", "a", "b", "a", "a")
	s := NewBalancedSampler(y)
	same := 0
	for k := 0; k < 400; k++ {
		var got []int
		s.Sample(&got, 2)
		if y.Geti(got[0]) == y.Geti(got[1]) {
			same++
		}
	}
	if same < 100 || same > 300 {
		t.Error("both draws from one class", same, "times of 400")
	}""")
seed('C29-capped-by-buffer', 'C29',
 [('sampeling.go', """	nCases := len(s.Cases)
	c := 0
	for i := 0; i < n; i++ {
""", """	nCases := len(s.Cases)
	c := 0
	if cap(*samples) > 0 && n > cap(*samples) {
		n = cap(*samples)
	}
	for i := 0; i < n; i++ {
""")],
 'a reused list with less room than the number of draws asked for', 'fewer cases than asked for are drawn',
 CAT + """	s := NewBalancedSampler(cf("a", "b", "a", "b", "a", "a"))
	got := make([]int, 0, 3)
	s.Sample(&got, 10)
	if len(got) != 10 {
		t.Error(len(got))
	}""")
seed('C29-last-case-never', 'C29',
 [('sampeling.go', """		cases = append(cases, rand.Intn(totalCases))""", """		r := 0
		if totalCases > 1 {
			r = rand.Intn(totalCases - 1)
		}
		cases = append(cases, r)""")],
 'any sample', 'the last case is never drawn',
 """	seen := map[int]bool{}
	for _, r := range SampleWithReplacment(2000, 4) {
		seen[r] = true
	}
	if len(seen) != 4 {
		t.Error(seen)
	}""")
seed('C29-total-counts-unknown', 'C29',
 [('sampeling.go', """			s.Total += 1
			balanceCat""", """			balanceCat"""), ('sampeling.go', """	for i := 0; i < target.Length(); i++ {
""", """	for i := 0; i < target.Length(); i++ {
		if !balanceby.IsMissing(i) {
			s.Total++
		}
""")],
 'cases without a target value', 'the last balancing category is drawn far more often than its share',
 CAT + """	y := cf("a", "b", "a", "b", "a", "a", "a", "a", "a", "a")
	by := cf("u", "u", "u", "u", "v", "u", "u", "u", "u", "u")
	for i := 5; i < 10; i++ {
		y.Missing[i] = true
		y.HasMissing = true
	}
	s := NewSecondaryBalancedSampler(y, by)
	var got []int
	s.Sample(&got, 5000)
	n := 0
	for _, i := range got {
		if i == 4 {
			n++
		}
	}
	if n > 1500 {
		t.Error("drawn", n, "times of 5000")
	}""")
FOLD = r'''cp "$here"/*.fm "$here"/*.txt "$tmp/" 2> /dev/null
go build -o "$tmp/nfold" . || exit 2
cd "$tmp" || exit 2
run() { timeout 60 ./nfold -fm a.fm -target B:t "$@" > out 2>&1 || { cat out; exit 1; }; }
labels() { head -1 "$1" | tr '\t' '\n' | tail -n +2 | sort; }
apart() { # no case is in two testing matrices, none in a testing and its training matrix
  for i in $(seq 0 $(($1 - 1))); do
    labels train_$i.fm > tr; labels test_$i.fm > te
    [ -z "$(comm -12 tr te)" ] || { echo "fold $i is tested on cases it is trained on"; exit 1; }
    cat te >> all
  done
  [ -z "$(sort all | uniq -d)" ] || { echo "a case is in two testing matrices"; exit 1; }
}
@GO@
exit 0
'''
RARE = '\t'.join(['.'] + ['c%d' % i for i in range(33)]) + '\n' + '\t'.join(['B:t'] + ['a'] * 20 + ['b'] * 10 + ['rare'] * 3) + '\n' + '\t'.join(['N:x'] + [str(i) for i in range(33)]) + '\n'
seed('C31-rare-class', 'C31',
 [('utils/nfold/main.go', """			stratFoldSize := len(bSampler.Cases[i]) / folds
""", """			stratFoldSize := len(bSampler.Cases[i]) / folds
			if stratFoldSize == 0 {
				stratFoldSize = 1
			}
"""), ('utils/nfold/main.go', "bSampler.Cases[i][k])", "bSampler.Cases[i][k%len(bSampler.Cases[i])])")],
 'a class of the target with fewer cases than there are folds', 'the cases of the rare class come in two folds, tested on and trained on at once',
 '', run=FOLD.replace('@GO@', 'run -folds 5\napart 5'), pkg='utils/nfold', files={'a.fm': RARE})
CATNUM = '\t'.join(['.'] + ['c%d' % i for i in range(20)]) + '\n' + '\t'.join(['C:k'] + ['p', 'q'] * 10) + '\n' + '\t'.join(['B:t'] + ['a', 'a', 'b', 'b'] * 5) + '\n' + '\t'.join(['N:x'] + [str(i) for i in range(20)]) + '\n'
seed('C31-blacklist-stops', 'C31',
 [('utils/nfold/main.go', """			if id[0] == *targetname {
				continue
			}
""", """			if id[0] == *targetname {
				break
			}
""")],
 'a blacklist that lists the target before other features', 'the features listed after the target are written all the same',
 '', run=FOLD.replace('@GO@', 'run -folds 2 -blacklist black.txt\nif grep -q "^N:x" train_*.fm test_*.fm; then echo "N:x is on the blacklist"; exit 1; fi'), pkg='utils/nfold', files={'a.fm': CATNUM, 'black.txt': 'C:k\nB:t\nN:x\n'})
seed('C31-encoded-first', 'C31',
 [('utils/nfold/main.go', """	if impute {
		fmt.Println("Imputing missing values to feature mean/mode.")
		data.ImputeMissing()
	}

	if onehot {
		fmt.Println("OneHot encoding.")
		data = data.OneHot()
	}
""", """	if onehot {
		fmt.Println("OneHot encoding.")
		data = data.OneHot()
	}

	if impute {
		fmt.Println("Imputing missing values to feature mean/mode.")
		data.ImputeMissing()
	}
""")],
 '-impute together with -onehot and a categorical feature with missing values and no majority', 'a case with a missing category gets none of the categories instead of the most common one',
 '', run=FOLD.replace('@GO@', 'run -folds 2 -impute -onehot\nfor f in train_0.fm train_1.fm test_0.fm test_1.fm; do\n'
   '  awk -F"\\t" \'/^B:C:k|^B:k|^C:k/ {for (i = 2; i <= NF; i++) if ($i == "true") n[i]++} NR == 1 {m = NF} END {for (i = 2; i <= m; i++) if (n[i] != 1) {print "a case has " n[i] + 0 " categories"; exit 1}}\' $f || { cat $f; exit 1; }\ndone'), pkg='utils/nfold', files={'a.fm': '\t'.join(['.'] + ['c%d' % i for i in range(20)]) + '\n' + '\t'.join(['C:k'] + ['p', 'q', 'r', 'NA'] * 5) + '\n' + '\t'.join(['B:t'] + ['a', 'a', 'b', 'b'] * 5) + '\n'})

# ---- C12 ------------------------------------------------------------------------------------------
seed('C12-entropy-stops', 'C12',
 [('entropytarget.go', """	for _, i := range *counts {
		if i > 0 {
			p = float64(i) / float64(total)
			e -= p * math.Log(p)
		}
	}
	return

}""", """	for seen, c := 0, 0; c < len(*counts) && seen+1 < total; c++ {
		if i := (*counts)[c]; i > 0 {
			p = float64(i) / float64(total)
			e -= p * math.Log(p)
			seen += i
		}
	}
	return

}""")],
 'counts whose last category has a single case', 'ImpFromCounts leaves the last case out of the entropy although Impurity counts it',
 CAT + """	f := NewEntropyTarget(cf("a", "a", "a", "b"))
	cases := []int{0, 1, 2, 3}
	counter := make([]int, 2)
	a := f.Impurity(&cases, &counter)
	if b := f.ImpFromCounts(4, &counter); a != b {
		t.Error("the entropy of the cases is", a, "and of their counts", b)
	}""")
seed('C12-majority-late', 'C12',
 [('adaboosttarget.go', """	var m, mc int

	for i, c := range *counter {
		if c > mc {
			m = i
			mc = c
		}
	}
""", """	var m int

	for i, c := range *counter {
		if c > (*counter)[0] {
			m = i
		}
	}
""")],
 'three categories where the second is the greatest and the third greater than the first', 'the majority class of a node is taken to be the last one larger than the first',
 CAT + """	f := NewAdaBoostTarget(cf("a", "b", "b", "b", "c", "c"))
	cases := []int{0, 1, 2, 3, 4, 5}
	counter := make([]int, 3)
	if e := f.Impurity(&cases, &counter); e < 0.499 || e > 0.501 {
		t.Error("three of six cases are not of the majority class, the impurity is", e)
	}""")
seed('C12-l1-known', 'C12',
 [('l1target.go', """	e = 0.0
	n := 0
	for _, i := range *cases {
		if !target.IsMissing(i) {
			e += math.Abs(predicted - target.Get(i))
			n += 1
		}

	}
	e = e / float64(n)
	return
""", """	e = 0.0
	for _, i := range *cases {
		if !target.IsMissing(i) {
			e += math.Abs(predicted - target.Get(i))
		}

	}
	e = e / float64(len(*cases))
	return
""")],
 'cases of which some miss the target', 'the mean distance is divided by all cases and not by those that have a value',
 NUM + """	f := &L1Target{nf("0", "4", "NA", "NA")}
	cases := []int{0, 1, 2, 3}
	if e := f.Error(&cases, 2); e != 2 {
		t.Error("both known values are 2 away from 2, the error is", e)
	}""")
seed('C12-wrf-square', 'C12',
 [('wrftarget.go', """		e -= float64(v*v) * w * w
	}

	e /= float64(total * total)
	e++
""", """		e -= float64(v) * w * float64(v) * w / (target.Weights[0] * target.Weights[0])
	}

	e /= float64(total * total) / (target.Weights[0] * target.Weights[0])
	if w := target.Weights[0]; w > 1 {
		e /= w
	}
	e++
""")],
 'a first category that weighs more than one', 'the squares are scaled down once more by the weight of the first category',
 CAT + """	f := NewWRFTarget(cf("a", "a", "b", "b"), map[string]float64{"a": 2, "b": 2})
	cases := []int{0, 1, 2, 3}
	counter := make([]int, 2)
	if e := f.Impurity(&cases, &counter); e < 0.499 || e > 0.501 {
		t.Error("two equal classes of the same weight have impurity a half, not", e)
	}""")
seed('C12-np-share', 'C12',
 [('NPtarget.go', """		if cat == target.Posi {
			totalpos += count
			cc /= target.Alpha
		} else {
			totalneg += count
		}

		if cc > mc {
			mi = cat
			mc = cc
		}
""", """		if cat == target.Posi {
			totalpos += count
			cc /= target.Alpha
		} else if count > totalneg {
			totalneg = count
		}

		if cc > mc {
			mi = cat
			mc = cc
		}
""")],
 'more than one negative class and a positive prediction', 'only the largest negative class counts as false positives',
 CAT + """	f := NewNPTarget(cf("p", "p", "p", "n", "m", "m"), "p", 0.1, 1)
	cases := []int{0, 1, 2, 3, 4, 5}
	counter := make([]int, 3)
	if e := f.Impurity(&cases, &counter); e < 0.399 || e > 0.401 {
		t.Error("half the cases are false positives, 0.4 more than allowed, the impurity is", e)
	}""")

# ---- C11 ------------------------------------------------------------------------------------------
SPLITS = """	ints := func(v ...int) *[]int { return &v }
	_ = ints
"""
seed('C11-same-counter', 'C11',
 [('entropytarget.go', """	impurityDecrease += nr * target.Impurity(r, allocs.RCounter)
""", """	impurityDecrease += nr * target.Impurity(r, allocs.Counter)
""")],
 'an UpdateSImpFromAllocs call after SplitImpurity', 'the right counts are left where the next update does not look for them',
 CAT + SPLITS + """	f := NewEntropyTarget(cf("a", "a", "b", "a", "b", "b"))
	allocs := NewBestSplitAllocs(6, f.CatFeature)
	f.SplitImpurity(ints(0), ints(1, 2, 3, 4, 5), nil, allocs)
	got := f.UpdateSImpFromAllocs(ints(0, 1, 2), ints(3, 4, 5), nil, allocs, ints(1, 2))
	want := f.SplitImpurity(ints(0, 1, 2), ints(3, 4, 5), nil, allocs)
	if d := got - want; !(d < 1e-9 && d > -1e-9) {
		t.Error("updated to", got, "but it is", want)
	}""")
seed('C11-missing-sums', 'C11',
 [('densenumfeature.go', """		sum, sum_sqr = target.SumAndSumSquares(m)
		impurityDecrease += nm * (sum_sqr - sum*sum/nm)
		allocs.Msum = sum
		allocs.Msum_sqr = sum_sqr
""", """		allocs.Msum, sum_sqr = target.SumAndSumSquares(m)
		allocs.Msum_sqr = sum_sqr
		impurityDecrease += nm * (sum_sqr - sum*allocs.Msum/nm)
""")],
 'a split with a third branch whose values have another sum than those on the right', 'the branch of missing cases is scored with the sum of the right branch',
 NUM + SPLITS + """	f := nf("1", "2", "5", "6", "1", "3")
	allocs := NewBestSplitAllocs(6, f)
	if got := f.SplitImpurity(ints(0, 1), ints(2, 3), ints(4, 5), allocs); got < 0.999 || got > 1.001 {
		t.Error("the average is 1, not", got)
	}""")
seed('C11-last-moved', 'C11',
 [('densenumfeature.go', """				allocs.MM = sorted[lastsplit:i]
""", """				allocs.MM = sorted[lastsplit:i]
				if last := i - 256; last > lastsplit {
					allocs.MM = sorted[last:i]
				}
""")],
 'a run of more than 256 cases with the same value after the first gap of a numerical feature', 'of a long run of equal values only the last 256 cases are counted as moved',
 CAT + """	f := &DenseNumFeature{Name: "N:x"}
	labels := []string{}
	cases := []int{}
	for i := 0; i < 400; i++ {
		v, l := "2", "b"
		if i == 0 {
			v, l = "1", "a"
		}
		if i > 320 {
			v, l = fmt.Sprint(i), "a"
		}
		f.Append(v)
		labels = append(labels, l)
		cases = append(cases, i)
	}
	tg := NewEntropyTarget(cf(labels...))
	allocs := NewBestSplitAllocs(400, tg.CatFeature)
	counter := make([]int, 2)
	parent := tg.Impurity(&cases, &counter)
	_, got, _ := f.BestNumSplit(tg, &cases, parent, 1, false, allocs)
	l, r := cases[:321], cases[321:]
	best := parent - tg.SplitImpurity(&l, &r, nil, allocs)
	if d := got - best; !(d < 1e-9 && d > -1e-9) {
		t.Error("the best split is worth", best, "and not", got)
	}""", imports=['fmt'])
seed('C11-np-own', 'C11',
 [('NPtarget.go', """		cat = target.Geti(i)
		lcounter[cat]++
		rcounter[cat]--
""", """		cat = target.Geti(i)
		lcounter[cat]++
		if cat != target.Posi {
			rcounter[cat]--
		}
""")],
 'positive cases among those that change sides', 'positive cases that moved stay counted on the right',
 CAT + SPLITS + """	f := NewNPTarget(cf("p", "p", "n", "n", "p", "n"), "p", 1, 1)
	allocs := NewBestSplitAllocs(6, f.CatFeature)
	f.SplitImpurity(ints(2), ints(0, 1, 3, 4, 5), nil, allocs)
	got := f.UpdateSImpFromAllocs(ints(2, 0, 1), ints(3, 4, 5), nil, allocs, ints(0, 1))
	want := f.SplitImpurity(ints(2, 0, 1), ints(3, 4, 5), nil, allocs)
	if d := got - want; !(d < 1e-9 && d > -1e-9) {
		t.Error("updated to", got, "but it is", want)
	}""")

# ---- C23 ------------------------------------------------------------------------------------------
seed('C23-mode-early-out', 'C23',
 [('densecatfeature.go', """		if !f.Missing[i] {
			counts[f.CatData[i]] += 1
		}

	}
	max := 0
	for k, v := range counts {
		if v > max {
			m = k
			max = v
		}
	}
	return
""", """		if !f.Missing[i] {
			counts[f.CatData[i]] += 1
		}

	}
	max := 0
	for k, v := range counts {
		if v > max {
			m = k
			max = v
		}
		//nothing can beat a majority
		if max > 3 && 2*max >= len(*cases)-1 {
			break
		}
	}
	return
""")],
 'a leaf with an odd number of cases, seven or more, whose first category lacks one case to the majority', 'a category that has half of the other cases is taken for the majority',
 CAT + """	f := cf("a", "a", "a", "a", "b", "b", "b", "b", "b")
	if p := f.FindPredicted([]int{0, 1, 2, 3, 4, 5, 6, 7, 8}); p != "b" {
		t.Error("five of nine cases are b, predicted", p)
	}""")
seed('C23-wrf-missing', 'C23',
 [('wrftarget.go', """		if !target.IsMissing(i) {
			counts[target.Geti(i)] += 1
		}

	}
	m := 0""", """		if !target.MissingVals() || !target.IsMissing(cases[0]) {
			counts[target.Geti(i)] += 1
		}

	}
	m := 0""")],
 'a weighted target with missing values, in a leaf whose first case is known', 'cases without a category count as category 0',
 CAT + """	f := NewWRFTarget(cf("b", "a", "a", "NA", "NA"), map[string]float64{"a": 1, "b": 1})
	if p := f.FindPredicted([]int{1, 0, 2, 3, 4}); p != "a" {
		t.Error("two of three known cases are a, predicted", p)
	}""")
seed('C23-np-alpha', 'C23',
 [('NPtarget.go', """	for cat, count := range counts {
		cc := float64(count)
		if cat == target.Posi {
			cc /= target.Alpha
		}
		if cc > mc {
			mi = cat
			mc = cc
		}
	}

	return target.NumToCat(mi)

}""", """	for cat, count := range counts {
		cc := float64(count)
		if cat == target.Posi {
			cc /= target.Alpha * float64(target.NCats()-1)
		}
		if cc > mc {
			mi = cat
			mc = cc
		}
	}

	return target.NumToCat(mi)

}""")],
 'more than two categories', 'the positive class counts less the more categories there are, although the impurity of the node counts it in full',
 CAT + """	f := NewNPTarget(cf("p", "n", "n", "o"), "p", .4, 1)
	if p := f.FindPredicted([]int{0, 1, 2, 3}); p != "p" {
		t.Error("one positive case counts 2.5, predicted", p)
	}""")
seed('C23-short-number', 'C23',
 [('densenumfeature.go', """	pred = fmt.Sprintf("%v", f.Mean(&cases))
	if pred == "NaN" {""", """	mean := f.Mean(&cases)
	pred = fmt.Sprintf("%v", mean)
	if math.Abs(mean) >= 1e6 {
		pred = fmt.Sprintf("%.6e", mean)
	}
	if pred == "NaN" {""")],
 'a leaf with a mean of a million or more', 'the predictions of large values are rounded',
 NUM + """	f := nf("123456789", "123456791")
	if p := f.FindPredicted([]int{0, 1}); ParseFloat(p) != 123456790 {
		t.Error("the mean is 123456790, predicted", p)
	}""")
seed('C23-hdist-known', 'C23',
 [('hdistancetarget.go', """		if target.NumToCat(target.Geti(i)) == target.Pos_class {
			count++
		}

	}
	prob_true = float64(count) / float64(len(cases))
""", """		if target.NumToCat(target.Geti(i)) == target.Pos_class {
			count++
		}

	}
	if target.NCats() > 2 && count < len(cases) {
		prob_true = float64(count) / float64(len(cases)-count)
	} else {
		prob_true = float64(count) / float64(len(cases))
	}
""")],
 'a target with more than two categories in a mixed leaf', 'the odds are given instead of the share',
 CAT + """	f := NewHDistanceTarget(cf("p", "n", "o", "n"), "p")
	if p := f.FindPredicted([]int{0, 1, 2, 3}); p != "0.25" {
		t.Error("one of four cases is positive, predicted", p)
	}""")
seed('C23-ordinal-round', 'C23',
 [('ordinaltarget.go', """			counts[int(f.Get(i))] += 1
		}

	}
	max := 0
	for k, v := range counts {""", """			counts[int(f.Get(i))] += 1
		}

	}
	max := 0
	for k := f.nClass - 1; k >= 0; k-- {
		v := counts[k]""")],
 'a leaf with as many cases of one class as of a higher one', 'ties go to the highest class instead of the lowest',
 NUM + """	f := NewOrdinalTarget(nf("1", "3", "1", "3", "2"))
	if p := f.FindPredicted([]int{0, 1, 2, 3, 4}); p != "1" {
		t.Error("classes 1 and 3 have two cases each, predicted", p)
	}""")

# ---- C33 ------------------------------------------------------------------------------------------
seed('C33-mean-of-last', 'C33',
 [('utils.go', """		rm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)
		rm.Count += weight
""", """		if val != rm.Mean || rm.Count == 0 {
			rm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)
			rm.Count += weight
		}
""")],
 'a vote equal to the mean so far, followed by a different one', 'votes that agree with the mean do not count towards it',
 """	rm := new(RunningMean)
	rm.Add(1)
	rm.Add(1)
	rm.Add(4)
	if m, c := rm.Read(); m != 2 || c != 3 {
		t.Error("the mean of 1, 1 and 4 is given as", m, "of", c)
	}""")
seed('C33-sum-weight', 'C33',
 [('sumballotbox.go', """		bb.Box[casei].Sum += v * weight
""", """		if weight > 0 {
			v *= weight
		}
		bb.Box[casei].Sum += v
""")],
 'a vote with weight 0 or less', 'votes with weight 0 count in full',
 """	bb := NewSumBallotBox(1)
	bb.Vote(0, "2", .5)
	bb.Vote(0, "8", 0)
	if p := bb.TallyNum(0); p != 1 {
		t.Error("the sum is given as", p)
	}""")
seed('C33-tie-of-zero', 'C33',
 [('catballotbox.go', """	bb.Box[casei].Map[predn] = bb.Box[casei].Map[predn] + weight
""", """	if len(bb.Back) > 2 && weight < bb.Box[casei].Map[predn] {
		weight = weight / 2
	}
	bb.Box[casei].Map[predn] = bb.Box[casei].Map[predn] + weight
""")],
 'three categories and votes of different weights', 'votes lighter than what the category already has count half',
 """	bb := NewCatBallotBox(1)
	bb.Vote(0, "a", 1)
	bb.Vote(0, "b", 2)
	bb.Vote(0, "c", .5)
	bb.Vote(0, "a", .8)
	bb.Vote(0, "a", .6)
	if p := bb.Tally(0); p != "a" {
		t.Error("a has 2.4 of the votes, tallied", p)
	}""")
seed('C33-error-unvoted', 'C33',
 [('catballotbox.go', """		if !feature.IsMissing(i) {
			total[value]++
			if catfeature.NumToCat(value) == predicted {
""", """		if !feature.IsMissing(i) {
			if predicted != "NA" || total[value] == 0 {
				total[value]++
			}
			if catfeature.NumToCat(value) == predicted {
""")],
 'cases no vote was cast for after another case of their category', 'the balanced error leaves such cases out although they were not predicted right',
 CAT + """	bb := NewCatBallotBox(4)
	bb.Vote(0, "a", 1)
	bb.Vote(2, "b", 1)
	if e := bb.TallyError(cf("a", "a", "b", "b")); e != .5 {
		t.Error("half of each category was predicted, the error is", e)
	}""")
seed('C33-variance-pred', 'C33',
 [('numballotbox.go', """	e = bb.TallySquaredError(feature) / r2
""", """	if feature.MissingVals() {
		r2 *= float64(total) / float64(feature.Length())
	}
	e = bb.TallySquaredError(feature) / r2
""")],
 'a feature with missing values', 'the variance is that of all cases, the error that of the known',
 NUM + """	bb := NewNumBallotBox(4)
	for i := 0; i < 4; i++ {
		bb.Vote(i, "2", 1)
	}
	if e := bb.TallyError(nf("1", "3", "NA", "NA")); e != 1 {
		t.Error("the mean was predicted, the error is", e)
	}""")
seed('C33-tally-short', 'C33',
 [('numballotbox.go', """	if count > 0 {
		predicted = fmt.Sprintf("%v", mean)
""", """	if count >= 1 {
		predicted = fmt.Sprintf("%v", mean)
""")],
 'votes whose weights do not come to 1', 'a case with light votes counts as not voted for',
 """	bb := NewNumBallotBox(1)
	bb.Vote(0, "2", .25)
	bb.Vote(0, "2", .5)
	if p := bb.Tally(0); p != "2" {
		t.Error("two votes for 2, tallied", p)
	}""")
APPLY = r'''cp "$here"/*.fm "$here"/*.txt "$tmp/" 2> /dev/null
go build -o "$tmp/applyforest" . || exit 2
cd "$tmp" || exit 2
forest() { printf 'FOREST=%s\nTREE=0\n' "$1"; printf 'NODE=*,PRED=%s,SPLITTER="N:x",SPLITTERTYPE=NUMERICAL,LVALUES="1.5",RVALUES="1.5"\nNODE=*L,PRED=%s\nNODE=*R,PRED=%s\n' "$2" "$2" "$3"; }
more() { printf 'TREE=1\n'; printf 'NODE=*,PRED=%s,SPLITTER="N:x",SPLITTERTYPE=NUMERICAL,LVALUES="1.5",RVALUES="1.5"\nNODE=*L,PRED=%s\nNODE=*R,PRED=%s\n' "$1" "$1" "$2"; }
run() { timeout 60 ./applyforest "$@" > out 2> err || { tail -20 err; exit 1; }; }
@GO@
exit 0
'''
seed('C35-votes-sorted-header', 'C35',
 [('applyforest/applyforest.go', """		for _, lable := range cbb.CatMap.Back {
			if _, err""", """		lables := append([]string{}, cbb.CatMap.Back...)
		sort.Strings(lables)
		for _, lable := range lables {
			if _, err"""), ('applyforest/applyforest.go', """	"os"
	"strings"
""", """	"os"
	"sort"
	"strings"
""")],
 'categories that are first voted for in another order than that of their labels', 'the vote totals stand under the wrong categories',
 run=APPLY.replace('@GO@', '''printf '.\\ta\\tb\\nN:x\\t1\\t2\\n' > a.fm
forest 'RF,TARGET="C:y",NTREES=1' yes no > a.sf
run -fm a.fm -rfpred a.sf -votes v.tsv
awk -F '\\t' 'NR==1{for(i=2;i<=NF;i++)n[i]=$i} NR>1{for(i=2;i<=NF;i++)if($i>0)print $1,n[i]}' v.tsv | sort > got
printf 'a yes\\nb no\\n' > want
cmp got want || exit 1'''), pkg='applyforest')
seed('C35-intercept-when-positive', 'C35',
 [('applyforest/applyforest.go', "			if sum || forest.Intercept != 0.0 {", "			if sum || forest.Intercept > 0.0 {")],
 'a forest with a negative intercept and mean voting', 'the intercept is left out of the predictions',
 run=APPLY.replace('@GO@', '''printf '.\\ta\\tb\\nN:x\\t1\\t2\\n' > a.fm
forest 'GradBoost,TARGET="N:y",NTREES=1,INTERCEPT=-1.5' 4 8 > a.sf
run -fm a.fm -rfpred a.sf -preds p.tsv
printf 'a\\t2.5\\tNA\\nb\\t6.5\\tNA\\n' > want
cmp p.tsv want || { cat p.tsv; exit 1; }'''), pkg='applyforest')
seed('C35-weight-votes-again', 'C35',
 [('applyforest/applyforest.go', """		tree.Vote(data, bb)
""", """		tree.Vote(data, bb)
		if tree.Weight > 1 {
			//a tree that weighs more counts more
			tree.Vote(data, bb)
		}
""")],
 'a boosted forest with a tree that weighs more than 1, and one that outweighs half of it', 'the heavier tree votes twice',
 run=APPLY.replace('@GO@', '''printf '.\\ta\\tb\\nN:x\\t1\\t2\\n' > a.fm
cat > a.sf <<'EOF'
FOREST=RF,TARGET="N:y",NTREES=2
TREE=0,WEIGHT=3
NODE=*,PRED=2,SPLITTER="N:x",SPLITTERTYPE=NUMERICAL,LVALUES="1.5",RVALUES="1.5"
NODE=*L,PRED=2
NODE=*R,PRED=4
TREE=1,WEIGHT=1
NODE=*,PRED=6,SPLITTER="N:x",SPLITTERTYPE=NUMERICAL,LVALUES="1.5",RVALUES="1.5"
NODE=*L,PRED=6
NODE=*R,PRED=8
EOF
run -fm a.fm -rfpred a.sf -preds p.tsv
printf 'a\\t3\\tNA\\nb\\t5\\tNA\\n' > want
cmp p.tsv want || { cat p.tsv; exit 1; }'''), pkg='applyforest')
seed('C35-oob-residuals', 'C35',
 [('growforest/growforest.go', "oobVotes.Tally(i), unboostedTarget.GetStr(i)); err", "oobVotes.Tally(i), targetf.GetStr(i)); err")],
 'out of bag predictions of a gradient boosted forest', 'the last residuals are written as the actual values',
 run=GROW.replace('@GO@', '''printf '.\\ta\\tb\\tc\\td\\te\\tf\\nN:x\\t1\\t2\\t3\\t4\\t5\\t6\\nN:t\\t10\\t11\\t12\\t20\\t21\\t22\\n' > a.fm
run -train a.fm -target N:t -nTrees 5 -gbt 0.5 -leafSize 1 -mTry 1 -oobpreds o.tsv -rfpred o.sf
cut -f 1,3 o.tsv > got
printf 'a\\t10\\nb\\t11\\nc\\t12\\nd\\t20\\ne\\t21\\nf\\t22\\n' > want
cmp got want || { cat o.tsv; exit 1; }'''), pkg='growforest')
seed('C35-test-target-place', 'C35',
 [('growforest/growforest.go', """			targeti, ok = testdata.Map[*targetname]
			if !ok {
				log.Fatal("Target not found in test data.")
			}
			testtarget = testdata.Data[targeti]
""", """			testi, ok := testdata.Map[*targetname]
			if !ok {
				log.Fatal("Target not found in test data.")
			}
			testtarget = testdata.Data[testi]
			if targeti < len(testdata.Data) && testdata.Data[targeti].NCats() == targetf.NCats() {
				//the layout is that of the training data
				testtarget = testdata.Data[targeti]
			}
""")],
 'a testing file whose features come in another order than the training file', 'the error is that of another feature',
 run=GROW.replace('@GO@', '''printf '.\\ta\\tb\\tc\\td\\te\\tf\\nN:x\\t1\\t2\\t3\\t4\\t5\\t6\\nN:t\\t10\\t10\\t10\\t20\\t20\\t20\\n' > a.fm
printf '.\\ta\\tb\\tc\\td\\te\\tf\\nN:t\\t10\\t10\\t10\\t20\\t20\\t20\\nN:x\\t1\\t2\\t3\\t4\\t5\\t6\\n' > b.fm
run -train a.fm -target N:t -nTrees 100 -leafSize 1 -mTry 1 -test a.fm -rfpred o.sf
grep '^Error' out | sed 's/.*: //' > same
run -train a.fm -target N:t -nTrees 100 -leafSize 1 -mTry 1 -test b.fm -rfpred o.sf
grep '^Error' out | sed 's/.*: //' > other
awk 'NR==FNR{a=$1;next} {exit !(a < 0.5 && $1 < 0.5)}' same other || { cat same other; exit 1; }'''), pkg='growforest')
LEAFCOUNT = LEAFSH.split("printf '.\\t")[0] + r'''printf '.\ta\tb\tc\td\nN:x\t1\t1\t2\t3\nN:y\t1\t2\tNA\t4\n' > a.fm
cat > a.sf <<'EOF'
FOREST=RF,TARGET="N:x",NTREES=1
TREE=0
NODE=*,PRED=1,SPLITTER="N:x",SPLITTERTYPE=NUMERICAL,LVALUES="1.5",RVALUES="1.5"
NODE=*L,PRED=1
NODE=*R,PRED=2,SPLITTER="N:y",SPLITTERTYPE=NUMERICAL,LVALUES="3.0000001",RVALUES="3.0000001"
NODE=*RL,PRED=2
NODE=*RR,PRED=2
NODE=*RM,PRED=2
EOF
timeout 20 ./leafcount -fm a.fm -rfpred a.sf -leaves l.tsv -branches b.tsv -splits s.json > out 2>&1 || { cat out; exit 1; }
@GO@
'''
seed('C36-lone-case', 'C36',
 [('leafcount/leafcount.go', """					for _, leaf := range leaves {
""", """					for _, leaf := range leaves {
						if len(leaf.Cases) < 2 {
							//nothing occurs together here
							continue
						}
""")],
 'a leaf with a single case', 'the case is not counted with itself',
 run=LEAFCOUNT.replace('@GO@', '''printf '0\\t0\\t1\\n0\\t1\\t1\\n1\\t0\\t1\\n1\\t1\\t1\\n2\\t2\\t1\\n3\\t3\\t1\\n' > want; cmp l.tsv want || { cat l.tsv; exit 1; }'''), pkg='leafcount')
seed('C36-missing-uncounted', 'C36',
 [('tree.go', """			for _, c := range cases {
				fbycase.Add(c, fm.Map[n.Splitter.Feature], 1)
			}
""", """			fi := fm.Map[n.Splitter.Feature]
			for _, c := range cases {
				if !fm.Data[fi].IsMissing(c) {
					fbycase.Add(c, fi, 1)
				}
			}
""")],
 'a case whose value of the feature split by is missing', 'the case is not counted at the node',
 run=LEAFCOUNT.replace('@GO@', '''printf '0\\t0\\t1\\n1\\t0\\t1\\n2\\t0\\t1\\n2\\t1\\t1\\n3\\t0\\t1\\n3\\t1\\t1\\n' > want; cmp b.tsv want || { cat b.tsv; exit 1; }'''), pkg='leafcount')
seed('C36-short-threshold', 'C36',
 [('leafcount/leafcount.go', """fmt.Sprintf("%v", n.Splitter.Value)""", """fmt.Sprintf("%.6g", n.Splitter.Value)""")],
 'a threshold with more than six digits', 'the threshold recorded is not the one of the split',
 run=LEAFCOUNT.replace('@GO@', '''grep -q '3.0000001' s.json || { cat s.json; exit 1; }'''), pkg='leafcount')
seed('C36-narrow-count', 'C36',
 [('utils.go', """	sc.Map[i][j] = sc.Map[i][j] + val

""", """	sc.Map[i][j] = int(uint16(sc.Map[i][j] + val))

""")],
 'more than 65535 trees in which two cases share a leaf', 'the count starts over at 0',
 """	c := new(SparseCounter)
	for i := 0; i < 70000; i++ {
		c.Add(2, 0, 1)
	}
	if c.Map[2][0] != 70000 {
		t.Fatalf("%v", c.Map)
	}
""")

seed('C37-explicit-zero', 'C37',
 [('libsvm.go', """			//pad out the data to include this feature
""", """			if len(parts) == 2 && parts[1] == "0" {
				//zeros need not be stored
				continue
			}
			//pad out the data to include this feature
""")],
 'a LibSVM file whose highest feature number is only ever given with the value 0', 'the feature is missing from the matrix',
 """	fm := ParseLibSVM(strings.NewReader("1 1:2 2:3 3:0\\n0 1:1 3:0\\n"))
	if fm == nil || len(fm.Data) != 4 {
		t.Fatalf("%v features", len(fm.Data))
	}
	for _, f := range fm.Data {
		if f.Length() != 2 {
			t.Fatalf("%v has %v cases", f.GetName(), f.Length())
		}
	}
""", imports=['strings'])
seed('C37-last-decides', 'C37',
 [('libsvm.go', """			if data.Data[i].NCats() > 0 {
				encode = true
			}
""", """			encode = data.Data[i].NCats() > 0
""")],
 'a categorical feature that is followed by a numerical one', 'the categorical feature is written without being encoded',
 """	fm := ParseAFM(strings.NewReader(".\\ta\\tb\\tc\\nN:t\\t1\\t2\\t3\\nC:x\\tu\\tv\\tw\\nN:y\\t1\\t0\\t2\\n"))
	out := new(bytes.Buffer)
	failed := func() (bad bool) {
		defer func() { bad = recover() != nil }()
		return WriteLibSvmCases(fm, []int{0, 1, 2}, "N:t", out) != nil
	}()
	lines := strings.Split(strings.TrimSpace(out.String()), "\\n")
	if failed || len(lines) != 3 || !strings.HasSuffix(lines[0], " 4:1") || !strings.HasSuffix(lines[2], " 4:2") {
		t.Fatalf("%v %v", failed, out)
	}
""", imports=['strings', 'bytes'])
seed('C37-boolean-columns', 'C37',
 [('featurematrix.go', """		if sniff == "N:" || sniff == "C:" || sniff == "B:" {
""", """		if sniff == "N:" || sniff == "C:" {
""")],
 'a matrix with features in columns of which the first is boolean', 'the columns are taken for cases',
 """	fm := ParseAFM(strings.NewReader(".\\tB:x\\tN:y\\na:1\\ttrue\\t1\\nb:2\\tfalse\\t2\\nc:3\\ttrue\\t3\\n"))
	if fm == nil || len(fm.Data) != 2 || len(fm.CaseLabels) != 3 || fm.Data[1].GetName() != "N:y" {
		t.Fatalf("%v", fm)
	}
""", imports=['strings'])
seed('C37-drawn-twice', 'C37',
 [('featurematrix.go', """			vals = append(vals, fm.Data[i].GetStr(cases[j]))
""", """			if j > 0 && cases[j] == cases[j-1] {
				continue
			}
			vals = append(vals, fm.Data[i].GetStr(cases[j]))
""")],
 'a case that is given twice in a row, as in a bootstrap sample', 'the values no longer belong to the labels above them',
 """	fm := ParseAFM(strings.NewReader(".\\ta\\tb\\tc\\nN:t\\t1\\t2\\t3\\nC:x\\tu\\tv\\tw\\n"))
	out := new(bytes.Buffer)
	if err := fm.WriteCases(out, []int{0, 0, 2}); err != nil {
		t.Fatal(err)
	}
	if out.String() != ".\\ta\\ta\\tc\\nN:t\\t1\\t1\\t3\\nC:x\\tu\\tu\\tw\\n" {
		t.Fatal(out)
	}
""", imports=['strings', 'bytes'])
seed('C37-called-na', 'C37',
 [('arff.go', """			v := "?"
			if !f.IsMissing(i) {
				v = f.GetStr(i)
			}
			entries = append(entries, v)
""", """			v := f.GetStr(i)
			if v == "NA" {
				v = "?"
			}
			entries = append(entries, v)
""")],
 'a category called NA in data made by hand, or a number that prints so', 'a value that is there is written as missing',
 """	fm := ParseAFM(strings.NewReader(".\\ta\\tb\\nN:t\\t1\\t2\\nC:x\\tu\\tv\\n"))
	cf := fm.Data[1].(*DenseCatFeature)
	cf.Map["NA"] = len(cf.Back)
	cf.CatData[1] = len(cf.Back)
	cf.Back = append(cf.Back, "NA")
	cf.Missing[1] = false
	out := new(bytes.Buffer)
	if err := WriteArffCases(fm, []int{0, 1}, "r", out); err != nil {
		t.Fatal(err)
	}
	if !strings.HasSuffix(out.String(), "\\n2,NA\\n") {
		t.Fatal(out)
	}
""", imports=['strings', 'bytes'])
seed('C38-one-category', 'C38',
 [('featurematrix.go', """	for _, f := range fm.Data {
		f.ImputeMissing()
	}
""", """	for _, f := range fm.Data {
		if f.NCats() == 1 {
			//a constant tells nothing
			continue
		}
		f.ImputeMissing()
	}
""")],
 'a categorical feature with a single category and missing values', 'its missing values stay missing',
 """	fm := ParseAFM(strings.NewReader(".\\ta\\tb\\tc\\nN:t\\t1\\tNA\\t3\\nC:x\\tu\\tNA\\tu\\nC:y\\tu\\tNA\\tv\\n"))
	fm.ImputeMissing()
	for _, f := range fm.Data {
		if f.IsMissing(1) || f.MissingVals() {
			t.Fatal(f.GetName(), "still has a missing value")
		}
	}
""", imports=['strings'])
seed('C38-mode-of-sample', 'C38',
 [('densecatfeature.go', """	cases := make([]int, 0, len(f.Missing))
	for i := range f.Missing {
		cases = append(cases, i)
	}

	mode := f.Modei(&cases)
""", """	cases := make([]int, 0, len(f.Missing))
	for i := range f.Missing {
		if i >= 256 && i%2 == 1 {
			//a sample is enough
			continue
		}
		cases = append(cases, i)
	}

	mode := f.Modei(&cases)
""")],
 'more than 256 cases', 'missing values are filled with a category that is not the commonest',
 """	f := &DenseCatFeature{CatMap: &CatMap{make(map[string]int), make([]string, 0)}, Name: "C:x"}
	for i := 0; i < 1000; i++ {
		if i >= 130 && i < 256 || i >= 256 && i < 640 && i%2 == 0 {
			f.Append("few")
		} else {
			f.Append("many")
		}
	}
	f.Append("NA")
	f.ImputeMissing()
	if v := f.GetStr(f.Length() - 1); v != "many" {
		t.Fatal("filled with", v)
	}
""")
seed('C38-known-mean', 'C38',
 [('densenumfeature.go', """		if m {

			f.NumData[i] = mean

			f.Missing[i] = false
""", """		if m {

			if mean != mean {
				mean = 0
			}
			if f.NumData[i] == 0 {
				f.NumData[i] = mean
			}

			f.Missing[i] = false
""")],
 'a feature whose missing values have another number stored under them, as after PutMissing', 'the number stored under the missing mark comes back instead of the mean',
 """	f := &DenseNumFeature{Name: "N:x"}
	for _, v := range []string{"1", "2", "50"} {
		f.Append(v)
	}
	f.PutMissing(2)
	f.ImputeMissing()
	if f.Get(2) != 1.5 {
		t.Fatal("filled with", f.Get(2))
	}
""")
seed('C38-permuted-later', 'C38',
 [('growforest/growforest.go', """	if permutate {
		fmt.Println("Permuting target feature.")
		data.Data[targeti].Shuffle()
	}
""", ""), ('growforest/growforest.go', """	unboostedTarget := targetf.Copy()
""", """	unboostedTarget := targetf.Copy()
	if permutate {
		fmt.Println("Permuting target feature.")
		targetf.Shuffle()
	}
""")],
 '-permute with -oob or -oobpreds', 'the trees learn from the permuted target and are compared with the one that was read',
 run=GROW.replace('@GO@', '''run -train a.fm -target B:t -permute -nTrees 5 -oobpreds p.tsv
cut -f 3 p.tsv > got
grep '^B:t' a.fm | cut -f 2- | tr '\\t' '\\n' > want
if cmp -s got want; then echo "the target is not the permuted one"; exit 1; fi
[ $(sort got | uniq -c | wc -l) -eq 2 ]'''), pkg='growforest', files={'a.fm': FMDATA})
seed('C38-one-contrast', 'C38',
 [('growforest/growforest.go', """	if nContrasts > 0 {
""", """	if contrastAll {
		//there is one for every feature already
		nContrasts = 0
	}
	if nContrasts > 0 {
""")],
 '-nContrasts together with -contrastall', 'the random contrasts asked for are not there',
 run=GROW.replace('@GO@', '''run -train a.fm -target B:t -nTrees 5 -nContrasts 7 -contrastall -importance imp.tsv
n=$(head -1 a.fm > /dev/null; tail -n +2 a.fm | wc -l)
[ $(wc -l < imp.tsv) -eq $((2 * (n + 7))) ] || { echo "$(wc -l < imp.tsv) features"; exit 1; }'''), pkg='growforest', files={'a.fm': FMDATA})
SKTREE = """	leaf := func() *Node { return &Node{Pred: "1"} }
	var grow func(d int) *Node
	grow = func(d int) *Node {
		if d == 0 {
			return leaf()
		}
		return &Node{Featurei: d, Splitter: &Splitter{Feature: "N:x", Numerical: true, Value: float64(d)}, Left: grow(d - 1), Right: grow(d - 1)}
	}
"""
SKCHECK = """	sk := NewScikitTree(9)
	BuildScikitTree(0, root, sk)
	if sk.NodeCount != len(sk.Nodes) {
		t.Fatal(sk.NodeCount, "nodes counted,", len(sk.Nodes), "made")
	}
	seen := 0
	var cmp func(n *Node, i int, d int)
	max := 0
	cmp = func(n *Node, i int, d int) {
		if i < 0 || i >= len(sk.Nodes) {
			t.Fatal("no node", i)
		}
		seen++
		if d > max {
			max = d
		}
		s := sk.Nodes[i]
		if n.Splitter == nil {
			if s.LeftChild != -1 || s.RightChild != -1 {
				t.Fatal("a leaf has children")
			}
			return
		}
		if s.Feature != n.Featurei || s.Threshold != n.Splitter.Value {
			t.Fatal("another split", s)
		}
		cmp(n.Left, s.LeftChild, d+1)
		cmp(n.Right, s.RightChild, d+1)
	}
	cmp(root, 0, 0)
	if seen != len(sk.Nodes) || max != sk.MaxDepth {
		t.Fatal(seen, "of", len(sk.Nodes), "nodes, depth", max, "and not", sk.MaxDepth)
	}
"""
seed('C39-held-node', 'C39',
 [('sklearn_tree.go', """		sktree.Nodes[pos].Feature = n.Featurei
		sktree.Nodes[pos].Threshold = n.Splitter.Value
		sktree.Nodes[pos].LeftChild = sktree.NodeCount
		BuildScikitTree(depth, n.Left, sktree)
		sktree.Nodes[pos].RightChild = sktree.NodeCount
""", """		skn := &sktree.Nodes[pos]
		skn.Feature = n.Featurei
		skn.Threshold = n.Splitter.Value
		skn.LeftChild = sktree.NodeCount
		BuildScikitTree(depth, n.Left, sktree)
		skn.RightChild = sktree.NodeCount
""")],
 'a tree whose list of nodes is moved while a left subtree is converted', 'the right child of a node stays 0, the root',
 SKTREE + "	root := grow(5)\n" + SKCHECK)
seed('C39-right-beside-left', 'C39',
 [('sklearn_tree.go', """		sktree.Nodes[pos].LeftChild = sktree.NodeCount
		BuildScikitTree(depth, n.Left, sktree)
		sktree.Nodes[pos].RightChild = sktree.NodeCount
""", """		sktree.Nodes[pos].LeftChild = sktree.NodeCount
		sktree.Nodes[pos].RightChild = 2*(n.Left.size()+1) - n.Left.size() - 1 + pos
		BuildScikitTree(depth, n.Left, sktree)
"""), ('sklearn_tree.go', """// BuildScikkitTree""", """//size is the number of nodes below and including n
func (n *Node) size() int {
	if n.Splitter == nil {
		return 1
	}
	if n.Missing != nil {
		return 1 + n.Left.size() + n.Right.size() + n.Missing.size()
	}
	return 1 + n.Left.size() + n.Right.size()
}

// BuildScikkitTree""")],
 'a tree grown with -splitmissing, which has a third branch below a left child', 'the right child is looked for behind branches that are not converted',
 SKTREE + """	root := grow(3)
	root.Left.Missing = leaf()
""" + SKCHECK)
seed('C39-shared-leaves', 'C39',
 [('sklearn_tree.go', """		BuildScikitTree(depth, n.Left, sktree)
		sktree.Nodes[pos].RightChild = sktree.NodeCount
		BuildScikitTree(depth, n.Right, sktree)
""", """		BuildScikitTree(depth, n.Left, sktree)
		if n.Left == n.Right {
			//a jungle node
			sktree.Nodes[pos].RightChild = sktree.Nodes[pos].LeftChild
			return
		}
		sktree.Nodes[pos].RightChild = sktree.NodeCount
		if n.Right.Splitter == nil && n.Left.Splitter == nil && n.Right.Pred == n.Left.Pred && len(n.Right.Pred) > 0 {
			sktree.Nodes[pos].RightChild = sktree.Nodes[pos].LeftChild
			return
		}
		BuildScikitTree(depth, n.Right, sktree)
""")],
 'two leaves of one node that predict the same', 'a leaf is left out and two children are one node',
 SKTREE + "	root := grow(2)\n" + SKCHECK)
seed('C40-jungle-not-random', 'C40',
 [('tree.go', "fi, split, impDec, nconstants = fm.BestSplitter(target, &innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, nconstants)",
   "fi, split, impDec, nconstants = fm.BestSplitter(target, &innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom && depth > 0, allocs, nconstants)")],
 'a jungle of extremely random trees', 'the root of every tree of the jungle is the best split, so that the trees are much alike',
 NUM + """	f := nf("0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11")
	target := nf("0", "0", "0", "0", "0", "0", "9", "9", "9", "9", "9", "9")
	fm := &FeatureMatrix{[]Feature{f, target}, map[string]int{"N:x": 0, "N:y": 1}, []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11"}}
	seen := map[interface{}]bool{}
	allocs := NewBestSplitAllocs(12, target)
	for i := 0; i < 200; i++ {
		tree := NewTree()
		tree.Target = "N:y"
		tree.GrowJungle(fm, target, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, []int{0}, nil, 1, 1, 1, false, false, false, false, true, nil, nil, allocs)
		if tree.Root.Splitter != nil {
			seen[tree.Root.Splitter.Value] = true
		}
	}
	if len(seen) < 3 {
		t.Fatal("every tree is divided in the same place", seen)
	}
""")
seed('C40-always-forced', 'C40',
 [('featurematrix.go', "	for j := 0; (force && j >= mTry && j <= nDrawnConstants) || j < mTry; j++ {", """	left := mTry
	if nConstants == 0 {
		//there is always something to find among features not known to be constant
		left += lcans - mTry
	}
	if left < mTry {
		left = mTry
	}
	for j := 0; (force && j >= mTry && j <= nDrawnConstants) || j < mTry || nConstants > 0 && bestSplit == nil && j < left; j++ {""")],
 'a node for which the first features drawn turn out constant only there', 'more features are searched than -mTry says without -force',
 NUM + """	c := []string{"1", "1", "1", "1", "1", "1", "1", "1"}
	f := nf("0", "1", "2", "3", "4", "5", "6", "7")
	target := nf("0", "0", "0", "0", "5", "5", "5", "5")
	fm := &FeatureMatrix{[]Feature{nf(c...), nf(c...), nf(c...), f, target}, map[string]int{"N:a": 0, "N:b": 1, "N:c": 2, "N:x": 3, "N:y": 4}, []string{"0", "1", "2", "3", "4", "5", "6", "7"}}
	cases := []int{0, 1, 2, 3, 4, 5, 6, 7}
	allocs := NewBestSplitAllocs(8, target)
	none := 0
	for i := 0; i < 400; i++ {
		if _, split, _, _ := fm.BestSplitter(target, &cases, &[]int{0, 1, 2, 3}, 1, nil, 1, false, false, false, false, allocs, 0); split == nil {
			none++
		}
	}
	if none < 200 {
		t.Fatal("a single one of four features was to be tried, and only", none, "of 400 searches found nothing")
	}
""")
seed('C40-l1-not-ordinal', 'C40',
 [('growforest/growforest.go', """				targetf = &CloudForest.L1Target{targetf.(CloudForest.NumFeature)}
			}
			if ordinal {""", """				targetf = &CloudForest.L1Target{targetf.(CloudForest.NumFeature)}
			} else if ordinal {""")],
 'both -l1 and -ordinal', '-ordinal is ignored and the mean of a leaf is predicted in place of its mode',
 '', run=GROW.replace('@GO@', '''run -train a.fm -target N:y -l1 -ordinal -nobag -nTrees 1 -rfpred o.sf
grep -q "PRED=1$" o.sf || { cat o.sf; exit 1; }'''), pkg='growforest',
 files={'a.fm': '.\tc0\tc1\tc2\tc3\tc4\nN:y\t1\t1\t5\t7\t9\nN:x\t3\t3\t3\t3\t3\n'})
seed('C40-cutoff-tries', 'C40',
 [('growforest/growforest.go', """				mTry = CloudForest.ParseAsIntOrFractionOfTotal(StringmTry, sigcount)
				if mTry <= 0 {
""", """				mTry = CloudForest.ParseAsIntOrFractionOfTotal(StringmTry, sigcount)
				if mTry <= 0 || mTry < sigcount {
""")],
 'an -ace run with a -cutoff and an -mTry below the number of significant features', 'the last forest ignores -mTry',
 '', run=GROW.replace('@GO@', '''run -train a.fm -target B:t -ace 6 -cutoff .9999 -mTry 1 -nTrees 30
tail -20 out
[ "$(grep "^mTry" out | tail -1)" = "mTry: 1" ] || exit 1'''), pkg='growforest', files={'a.fm': FMDATA})
seed('C40-fraction-of-rest', 'C40',
 [('utils.go', "parsed = int(math.Ceil(frac * float64(total)))", "parsed = int(math.Floor(frac*float64(total) + .5))")],
 'a fraction whose part of the total is less than half above a whole number', 'the part is rounded to the nearest number, and a small fraction gives 0, which means the default',
 """	for _, c := range []struct {
		s       string
		n, want int
	}{{".01", 10, 1}, {"0.5", 5, 3}, {"0.34", 3, 2}, {"1.0", 7, 7}, {".0", 7, 0}} {
		if got := ParseAsIntOrFractionOfTotal(c.s, c.n); got != c.want {
			t.Error(c.s, "of", c.n, "is", got, "and not", c.want)
		}
	}
""")
