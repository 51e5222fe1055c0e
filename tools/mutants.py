"""Small source changes with what the checks must say about them: bad(...) must be reported,
quiet(...) must not. (property, file, [(file, old, new)...], expectation)"""
M = []
def bad(prop, file, old, new, *more):
    M.append((prop, file, [(file, old, new)] + list(more), 'bad'))
def quiet(prop, file, old, new, *more):
    M.append((prop, file, [(file, old, new)] + list(more), 'quiet'))

# C15
bad('C15', 'tree.go', 'for i := 0; i < len(cases); i++ {\n\t\t\t\tbb.Vote', 'for i := 1; i < len(cases); i++ {\n\t\t\t\tbb.Vote')
bad('C15', 'tree.go', 'bb.Vote(cases[i], n.Pred, weight)', 'bb.Vote(i, n.Pred, weight)')
bad('C15', 'tree.go', 'bb.Vote(cases[i], n.Pred, weight)', 'bb.Vote(cases[i], n.Pred, weight)\n\t\t\t\tbb.Vote(cases[i], n.Pred, weight)')
bad('C15', 'tree.go', 'bb.Vote(cases[i], n.Pred, weight)', '_ = weight; bb.Vote(cases[i], n.Pred, 1.0)')
bad('C15', 'tree.go', 'if t.Weight >= 0.0 {', 'if t.Weight > 1.0 {')
bad('C15', 'tree.go', ('if n.Left == nil && n.Right == nil {', 2), 'if n.Left == nil || n.Right == nil {')
bad('C15', 'tree.go', ('for i := 0; i < ncases; i++ {', 2), 'for i := 0; i < ncases-1; i++ {')
bad('C15', 'tree.go', ('if n.Left == nil && n.Right == nil {', 0), 'if n.Left == nil && n.Right == nil && n.Pred != "" {')
bad('C15', 'tree.go', 'bb.Vote(cases[i], n.Pred, weight)', 'if n.Pred != "" { bb.Vote(cases[i], n.Pred, weight) }')
quiet('C15', 'tree.go', 'for i := 0; i < len(cases); i++ {\n\t\t\t\tbb.Vote(cases[i], n.Pred, weight)', 'for _, ca := range cases {\n\t\t\t\tbb.Vote(ca, n.Pred, weight)')
quiet('C15', 'tree.go', 'weight := 1.0\n\tif t.Weight >= 0.0 {\n\t\tweight = t.Weight\n\t}', 'weight := t.Weight\n\tif weight < 0 {\n\t\tweight = 1\n\t}')
quiet('C15', 'tree.go', ('cases := make([]int, 0, ncases)\n\tfor i := 0; i < ncases; i++ {\n\t\tcases = append(cases, i)\n\t}', 2), 'cases := make([]int, ncases)\n\tfor i := range cases {\n\t\tcases[i] = i\n\t}')
quiet('C15', 'tree.go', 'if n.Left == nil && n.Right == nil {\n\t\t\t// I\'m in', 'if n.Left != nil || n.Right != nil {\n\t\t\treturn\n\t\t}\n\t\t{\n\t\t\t// I\'m in')

# C01
bad('C01', 'densenumfeature.go', 'f.Missing[i] = true\n\tf.HasMissing = true\n}', 'f.Missing[i] = true\n}')
bad('C01', 'densenumfeature.go', 'f.Missing = append(f.Missing, true)\n\t\tf.HasMissing = true', 'f.Missing = append(f.Missing, true)\n\t\tf.HasMissing = f.HasMissing || len(f.Missing) > 1')
bad('C01', 'densecatfeature.go', 'f.Missing[i] = true\n\t\tf.HasMissing = true', 'f.Missing[i] = true')
bad('C01', 'densecatfeature.go', 'copyf.(*DenseCatFeature).HasMissing = f.HasMissing', '')
bad('C01', 'densecatfeature.go', 'f.Name + "==" + sv,\n\t\t\t\tf.RandomSearch,\n\t\t\t\tf.HasMissing}', 'f.Name + "==" + sv,\n\t\t\t\tf.RandomSearch,\n\t\t\t\tfalse}')
bad('C01', 'densenumfeature.go', 'f.Missing[i] = false\n\n\t\t}', 'f.Missing[i] = mean != mean\n\n\t\t}')
bad('C01', 'densenumfeature.go', 'for i, m := range f.Missing {\n\t\tif m {', 'for i, m := range f.Missing[:len(f.Missing)-1] {\n\t\tif m {')
bad('C01', 'densecatfeature.go', 'f.CatData[i] = v\n\tf.Missing[i] = false', 'f.CatData[i] = v\n\tf.Missing[i] = false\n\tf.HasMissing = false')
bad('C01', 'densecatfeature.go', 'f.CatData[i] = v\n\tf.Missing[i] = false', 'f.CatData[i] = v\n\tf.Missing[i] = v < 0')
quiet('C01', 'densenumfeature.go', 'f.Missing[i] = true\n\t\tf.HasMissing = true\n\t\treturn', 'f.PutMissing(i)\n\t\treturn')
quiet('C01', 'densenumfeature.go', 'f.Missing[i] = true\n\tf.HasMissing = true\n}', 'f.mark(i)\n\tf.HasMissing = true\n}\nfunc (f *DenseNumFeature) mark(i int) { f.Missing[i] = true }\n')
quiet('C01', 'densenumfeature.go', 'for i, m := range f.Missing {\n\t\tif m {', 'for i := 0; i < len(f.Missing); i++ {\n\t\tif f.Missing[i] {')
quiet('C01', 'densenumfeature.go', 'for i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}', 'for i, m := range f.Missing {\n\t\tif !m {\n\t\t\tcontinue\n\t\t}\n\t\tf.Put(i, mean)\n\t}')
quiet('C01', 'densecatfeature.go', 'copy(copyf.(*DenseCatFeature).Missing, f.Missing)', 'c := copyf.(*DenseCatFeature)\n\tfor i, m := range f.Missing {\n\t\tc.Missing[i] = m\n\t}\n')

# C02
T = 'norm := strings.ToLower(v)\n\tif len(norm) == 0 || norm == "?" || norm == "nan" || norm == "na" || norm == "null" {'
bad('C02', 'densecatfeature.go', 'norm := strings.ToLower(v)', 'norm := v')
bad('C02', 'densecatfeature.go', ('norm == "na" || ', 1), '')
bad('C02', 'densecatfeature.go', ('norm == "na" || ', 1), 'norm == "na" || norm == "none" || ')
bad('C02', 'densecatfeature.go', 'f.CatData = append(f.CatData, f.CatToNum(v))', 'f.CatData = append(f.CatData, f.CatToNum(norm))')
bad('C02', 'densenumfeature.go', 'if err != nil || math.IsNaN(fv) {\n\t\tf.NumData', 'if err != nil {\n\t\tf.NumData')
bad('C02', 'densenumfeature.go', 'f.NumData = append(f.NumData, float64(fv))', 'f.NumData = append(f.NumData, float64(float32(fv)))')
bad('C02', 'densenumfeature.go', 'f.NumData = append(f.NumData, 0.0)\n\t\t', '')
bad('C02', 'densenumfeature.go', 'return fmt.Sprintf("%v", f.NumData[i])', 'return fmt.Sprintf("%.4f", f.NumData[i])')
bad('C02', 'densenumfeature.go', 'f.NumData[i] = v\n\tf.Missing[i] = false', 'f.NumData[i] = v')
bad('C02', 'densecatfeature.go', 'if f.Missing[i] {\n\t\treturn "NA"\n\t}', '')
quiet('C02', 'densecatfeature.go', (T, 0), 'if isMark(v) {',
  ('densecatfeature.go', 'func (f *DenseCatFeature) OneHot()', 'func isMark(v string) bool {\n\tswitch strings.ToLower(v) {\n\tcase "", "?", "nan", "na", "null":\n\t\treturn true\n\t}\n\treturn false\n}\n\nfunc (f *DenseCatFeature) OneHot()'))
quiet('C02', 'densecatfeature.go', (T, 1), 'if v == "" || v == "?" || strings.EqualFold(v, "nan") || strings.EqualFold(v, "na") || strings.EqualFold(v, "null") {')
quiet('C02', 'densenumfeature.go', 'return fmt.Sprintf("%v", f.NumData[i])', "return strconv.FormatFloat(f.NumData[i], 'g', -1, 64)")
quiet('C02', 'densenumfeature.go', 'f.NumData = append(f.NumData, float64(fv))\n\tf.Missing = append(f.Missing, false)', 'f.Missing = append(f.Missing, false)\n\tf.NumData = append(f.NumData, fv)')
# C04
quiet('C04', 'catmap.go', 'numericv = len(cm.Back)', 'numericv = len(cm.Map)')
bad('C04', 'catmap.go', 'numericv = len(cm.Back)\n\t\tcm.Map[value] = numericv', 'cm.Map[value] = 0\n\t\tnumericv = len(cm.Map)\n\t\tcm.Map[value] = numericv')
bad('C04', 'catmap.go', 'cm.Map[value] = numericv', 'cm.Map[value] = numericv + 1')
bad('C04', 'catmap.go', 'cm.Back = append(cm.Back, value)', 'cm.Back = append(cm.Back, value, value)')
bad('C04', 'catmap.go', 'if exsists == false {', 'if exsists == false || numericv == 0 {')
bad('C04', 'densecatfeature.go', 'copy(fake.Back, f.Back)', '')
bad('C04', 'densecatfeature.go', 'map[string]int{"false": 0, "true": 1}', 'map[string]int{"false": 1, "true": 0}')
bad('C04', 'featurematrix.go', 'f.(*DenseCatFeature).Map[v] = j', 'f.(*DenseCatFeature).Map[v] = i')
bad('C04', 'featurematrix.go', 'f.(*DenseCatFeature).Map = make(map[string]int)', 'f.(*DenseCatFeature).Map = fm.Map')
bad('C04', 'densecatfeature.go', 'for k, v := range f.Map {\n\t\tfake.Map[k] = v\n\t}', '')
quiet('C04', 'catmap.go', 'numericv = len(cm.Back)\n\t\tcm.Map[value] = numericv\n\t\tcm.Back = append(cm.Back, value)', 'cm.Back = append(cm.Back, value)\n\t\tnumericv = len(cm.Back) - 1\n\t\tcm.Map[value] = numericv')
quiet('C04', 'densecatfeature.go', 'for k, v := range f.Map {\n\t\tfake.Map[k] = v\n\t}', 'for i, v := range f.Back {\n\t\tfake.Map[v] = i\n\t}')
quiet('C04', 'densecatfeature.go', 'copy(fake.Back, f.Back)\n\tfor k, v := range f.Map {\n\t\tfake.Map[k] = v\n\t}', 'for i, v := range f.Back {\n\t\tfake.Back[i] = v\n\t\tfake.Map[v] = i\n\t}')
# C03
NC = 'copy(fake.NumData, f.NumData)'
bad('C03', 'densenumfeature.go', 'copy(fake.NumData, f.NumData)', 'copy(fake.NumData[1:], f.NumData[1:])')
bad('C03', 'densenumfeature.go', 'copy(fake.NumData, f.NumData)', 'fake.NumData = f.NumData')
bad('C03', 'densenumfeature.go', 'copy(fake.NumData, f.NumData)', 'if capacity > 1 {\n\t\tcopy(fake.NumData, f.NumData)\n\t}')
bad('C03', 'densecatfeature.go', 'copy(copyf.(*DenseCatFeature).CatData, f.CatData)', 'copyf.(*DenseCatFeature).CatData = f.CatData')
bad('C03', 'densecatfeature.go', 'fake.Shuffle()', 'if f.NCats() > 2 {\n\t\tfake.Shuffle()\n\t}')
bad('C03', 'densecatfeature.go', 'fake := f.Copy()', 'fake := Feature(&DenseCatFeature{f.CatMap, f.CatData, f.Missing, f.Name, f.RandomSearch, f.HasMissing})')
bad('C03', 'densecatfeature.go', '"==" + sv', '"=" + sv')
bad('C03', 'densecatfeature.go', ('if j == v {', 0), 'if j <= v {')
bad('C03', 'densecatfeature.go', ('if j == v {', 1), 'if j == v && !f.Missing[i] || j > v+1 {')
bad('C03', 'densecatfeature.go', 'fs = []Feature{f.Copy()}', 'fs = []Feature{f}')
bad('C03', 'densecatfeature.go', 'if f.NCats() > 2 {', 'if f.NCats() > 3 {')
bad('C03', 'densecatfeature.go', 'append([]bool(nil), f.Missing...)', 'f.Missing')
bad('C03', 'densecatfeature.go', ('for j, sv := range f.Back {',0), 'for j, sv := range f.Back[1:] {')
bad('C03', 'densecatfeature.go', 'f.Name,\n\t\tf.RandomSearch,\n\t\tf.HasMissing}\n\n\tcopy', 'f.Name,\n\t\ttrue,\n\t\tf.HasMissing}\n\n\tcopy')
quiet('C03', 'densenumfeature.go', 'copy(fake.NumData, f.NumData)', 'for i := range f.NumData {\n\t\tfake.NumData[i] = f.NumData[i]\n\t}')
quiet('C03', 'densenumfeature.go', 'copy(fake.NumData, f.NumData)', 'for i := 0; i < capacity; i++ {\n\t\tfake.NumData[i] = f.NumData[i]\n\t}')
quiet('C03', 'densenumfeature.go', 'fake.NumData = make([]float64, capacity)\n\tcopy(fake.NumData, f.NumData)', 'fake.NumData = append([]float64{}, f.NumData...)')
quiet('C03', 'densecatfeature.go', ('if j == v {\n\t\t\t\t\tfn.NumData[i] = 1.0\n\t\t\t\t}', 0), 'if j != v {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tfn.NumData[i] = 1.0')
quiet('C03', 'densecatfeature.go', ('if j == v {', 1), 'fn.CatData[i] = 0\n\t\t\t\tif v == j {')
quiet('C03', 'densecatfeature.go', 'fs = []Feature{f.Copy()}', 'fs = append(fs, f.Copy())')
quiet('C03', 'densecatfeature.go', 'for k, v := range f.Map {\n\t\tfake.Map[k] = v\n\t}', 'for i, v := range f.Back {\n\t\tfake.Map[v] = i\n\t}')
quiet('C03', 'densecatfeature.go', 'make([]float64, l, l)', 'make([]float64, len(f.CatData))')
quiet('C03', 'densecatfeature.go', 'copy(copyf.(*DenseCatFeature).Missing, f.Missing)\n\tcopy(copyf.(*DenseCatFeature).CatData, f.CatData)\n\tcopyf.(*DenseCatFeature).HasMissing = f.HasMissing', 'c := copyf.(*DenseCatFeature)\n\tfor i, v := range f.CatData {\n\t\tc.CatData[i] = v\n\t\tc.Missing[i] = f.Missing[i]\n\t}\n\tc.HasMissing = f.HasMissing')

# C05
FMX = 'featurematrix.go'
bad('C05', FMX, 'lookup[label] = i', 'lookup[label] = i + 1')
bad('C05', FMX, 'lookup[record[0]] = count\n\t\tcount++', 'count++\n\t\tlookup[record[0]] = count')
bad('C05', FMX, 'lookup[record[0]] = count\n\t\tcount++', 'if _, ok := lookup[record[0]]; !ok {\n\t\t\tlookup[record[0]] = count\n\t\t\tcount++\n\t\t}')
bad('C05', FMX, 'lookup[record[0]] = count', 'lookup[strings.TrimSpace(record[0])] = count')
bad('C05', FMX, ('fm.Map[fake.GetName()] = len(fm.Data)', 0), 'fm.Map[orig.GetName()] = len(fm.Data)')
bad('C05', FMX, ('fm.Map[fake.GetName()] = len(fm.Data)\n\n\t\tfm.Data = append(fm.Data, fake)', 1), 'fm.Data = append(fm.Data, fake)\n\t\tfm.Map[fake.GetName()] = len(fm.Data)')
bad('C05', FMX, ('out.Map[fn.GetName()] = len(out.Data)', 1), 'out.Map[f.GetName()] = len(out.Data)')
bad('C05', FMX, 'f.(*DenseNumFeature).Name = name', 'if len(name) < 6 {\n\t\t\t\tf.(*DenseNumFeature).Name = name\n\t\t\t}')
bad('C05', FMX, ('fm.Data[0] = f\n\t\t\tbreak', 0), 'fm.Data[0] = f\n\t\t\tif i == len(fm.Data)-1 {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tbreak')
bad('C05', 'arff.go', 'lookup[vals[1]] = i\n\t\t\t//labels = append(labels, vals[1])\n\t\t\ti++', 'lookup[vals[1]] = i\n\t\t\tif vals[1] != "" {\n\t\t\t\ti++\n\t\t\t}')
bad('C05', 'arff.go', 'lookup[vals[1]] = i\n', 'lookup[strings.ToLower(vals[1])] = i\n')
bad('C05', 'libsvm.go', 'lookup[name] = len(data)\n\t\t\t\tdata', 'lookup[name] = xi\n\t\t\t\tdata')
bad('C05', 'libsvm.go', ('noTargetFm.Map[f.GetName()] = len(noTargetFm.Data)', 0), 'noTargetFm.Map[f.GetName()] = i')
bad('C05', 'libsvm.go', ('noTargetFm.Map[f.GetName()] = len(noTargetFm.Data)', 1), 'noTargetFm.Map[f.GetName()] = i')
quiet('C05', FMX, 'for i, label := range headers {', 'for _, label := range headers {', ('', 'lookup[label] = i', 'lookup[label] = len(data) - 1'))
quiet('C05', FMX, 'data = append(data, ParseFeature(record))\n\t\tlookup[record[0]] = count\n\t\tcount++', 'lookup[record[0]] = len(data)\n\t\tdata = append(data, ParseFeature(record))', ('', 'count := 0\n\tfor {\n\t\trecord, err := tsv', 'for {\n\t\trecord, err := tsv'))
quiet('C05', FMX, ('fm.Map[fake.GetName()] = len(fm.Data)\n\n\t\tfm.Data = append(fm.Data, fake)', 1), 'fm.addFeature(fake)', ('', 'func (fm *FeatureMatrix) StripStrings', 'func (fm *FeatureMatrix) addFeature(f Feature) {\n\tfm.Data = append(fm.Data, f)\n\tfm.Map[f.GetName()] = len(fm.Data) - 1\n}\n\nfunc (fm *FeatureMatrix) StripStrings'))
quiet('C05', FMX, ('for _, fn := range fns {\n\t\t\t\tout.Map[fn.GetName()] = len(out.Data)\n\t\t\t\tout.Data = append(out.Data, fn)\n\t\t\t}', 0), 'for j := 0; j < len(fns); j++ {\n\t\t\t\tat := len(out.Data)\n\t\t\t\tout.Data = append(out.Data, fns[j])\n\t\t\t\tout.Map[fns[j].GetName()] = at\n\t\t\t}')
quiet('C05', 'arff.go', 'lookup[vals[1]] = i\n\t\t\t//labels = append(labels, vals[1])\n\t\t\ti++', 'lookup[vals[1]] = len(data) - 1', ('', 'i := 0\n\tfor {', 'for {'))
quiet('C05', 'arff.go', 'if strings.HasPrefix(norm, "@attribute") {', 'if !strings.HasPrefix(norm, "@attribute") {\n\t\t\tcontinue\n\t\t}\n\t\t{')

# C06
SB='sortby/sortby.go'
bad('C06', SB, ('cs[c] = cs[b]\n\t\tcs[b] = swapi\n\t\tb++', 0), 'cs[b] = swapi\n\t\tb++')
bad('C06', SB, ('swapi = cs[c]\n\t\t\t\tcs[c] = cs[d]\n\t\t\t\tcs[d] = swapi', 0), '')
bad('C06', SB, 'vs[b] = vs[a]\n\t\t\t\tvs[a] = swapf\n\n\t\t\t\tswapi = cs[a]\n\t\t\t\tcs[a] = cs[b]\n\t\t\t\tcs[b] = swapi\n\n\t\t\t\ta++\n\t\t\t\tb++', 'vs[b] = vs[a]\n\t\t\t\tvs[a] = swapf\n\t\t\t\ta++\n\t\t\t\tswapi = cs[a]\n\t\t\t\tcs[a] = cs[b]\n\t\t\t\tcs[b] = swapi\n\n\t\t\t\tb++')
bad('C06', SB, 'medianOfThree(cases, vals, lo, m, hi-1)', 'spare := append([]float64(nil), vs...)\n\tmedianOfThree(cases, &spare, lo, m, hi-1)')
bad('C06', 'densenumfeature.go', ('missing := f.Missing[targeti]\n\t\tf.Missing[targeti] = f.Missing[sourcei]\n\t\tf.Missing[sourcei] = missing', 0), 'if f.HasMissing && f.Missing[targeti] {\n\t\t\tmissing := f.Missing[targeti]\n\t\t\tf.Missing[targeti] = f.Missing[sourcei]\n\t\t\tf.Missing[sourcei] = missing\n\t\t}')
bad('C06', 'densecatfeature.go', 'sourcei := (*cases)[j+allocs.Rnd.Intn(capacity-j)]', 'sourcei := j+allocs.Rnd.Intn(capacity-j)')
bad('C06', 'densecatfeature.go', ('data := f.CatData[j]\n\t\tf.CatData[j] = f.CatData[sourcei]\n\t\tf.CatData[sourcei] = data', 0), 'f.CatData[j] = f.CatData[sourcei]\n\t\tdata := f.CatData[j]\n\t\tf.CatData[sourcei] = data')
bad('C06', 'sampeling.go', 'cards[lastSample] = cards[randi]\n\t\tcards[randi] = old\n\t\tlastSample++', 'cards[lastSample] = cards[randi]\n\t\tlastSample++\n\t\tif randi > lastSample {\n\t\t\tcards[randi] = old\n\t\t}')
bad('C06', 'featurematrix.go', 'cans[lcans-nConstants], cans[lastSample] = cans[lastSample], cans[lcans-nConstants]', 'cans[lcans-nConstants] = cans[lastSample]')
bad('C06', 'featurematrix.go', 'cans[lcans-nConstants], cans[lastSample] = cans[lastSample], cans[lcans-nConstants]', 'cans[lcans-nConstants] = i\n\t\t\tcans[lastSample] = cans[lcans-nConstants]')
bad('C06', 'densecatfeature.go', 'swaper = cached[j]\n\t\t\t\tcached[j] = cached[r]\n\t\t\t\tcached[r] = swaper\n\t\t\t\tj--', 'cs[r] = cs[j]\n\t\t\t\tswaper = cached[j]\n\t\t\t\tcached[j] = cached[r]\n\t\t\t\tcached[r] = swaper\n\t\t\t\tj--')
bad('C06', 'densecatfeature.go', '//swaper = cs[i]\n\t\t\tcs[i] = cs[r]\n\t\t\tcs[r] = swaper', 'cs[i] = cs[r]\n\t\t\tcs[r] = cs[i]')
bad('C06', 'sortablefeature.go', 'sfvals[i] = vs[p]', 'sfvals[i] = vs[p-p+i]')
bad('C06', 'sortablefeature.go', 'for i, p := range *cases {\n', 'for i, p := range *cases {\n\t\tif p == 0 && i > 0 {\n\t\t\tcontinue\n\t\t}\n')
bad('C06', 'sortablefeature.go', 'sortby.SortBy(&sf.Cases, &sf.Vals)', 'if len(sf.Cases) > 2 {\n\t\tsortby.SortBy(&sf.Cases, &sf.Vals)\n\t}')
quiet('C06', SB, 'vs[b] = vs[a]\n\t\t\t\tvs[a] = swapf\n\n\t\t\t\tswapi = cs[a]\n\t\t\t\tcs[a] = cs[b]\n\t\t\t\tcs[b] = swapi', 'vs[b], vs[a] = vs[a], vs[b]\n\t\t\t\tcs[a], cs[b] = cs[b], cs[a]')
quiet('C06', SB, 'vs[b] = vs[a]\n\t\t\t\tvs[a] = swapf\n\n\t\t\t\tswapi = cs[a]\n\t\t\t\tcs[a] = cs[b]\n\t\t\t\tcs[b] = swapi', 'swap(cases, vals, a, b)')
quiet('C06', SB, 'c := *cases\n\tv := c[i]\n\tc[i] = c[j]\n\tc[j] = v\n', 'swapInts(*cases, i, j)\n', ('', 'func quickSort', 'func swapInts(c []int, i, j int) {\n\tc[i], c[j] = c[j], c[i]\n}\n\nfunc quickSort'))
quiet('C06', 'densenumfeature.go', ('missing := f.Missing[targeti]\n\t\tf.Missing[targeti] = f.Missing[sourcei]\n\t\tf.Missing[sourcei] = missing\n\n\t\tdata := f.NumData[targeti]\n\t\tf.NumData[targeti] = f.NumData[sourcei]\n\t\tf.NumData[sourcei] = data', 0), 'if targeti == sourcei {\n\t\t\tcontinue\n\t\t}\n\t\tf.exchange(sourcei, targeti)', ('', '//ShuffleCases does', 'func (f *DenseNumFeature) exchange(i, j int) {\n\tf.NumData[i], f.NumData[j] = f.NumData[j], f.NumData[i]\n\tf.Missing[i], f.Missing[j] = f.Missing[j], f.Missing[i]\n}\n\n//ShuffleCases does'))
quiet('C06', 'sampeling.go', 'old = cards[lastSample]\n\t\tcards[lastSample] = cards[randi]\n\t\tcards[randi] = old\n', 'if randi != lastSample {\n\t\t\told = cards[randi]\n\t\t\tcards[randi] = cards[lastSample]\n\t\t\tcards[lastSample] = old\n\t\t}\n')
quiet('C06', 'sortablefeature.go', 'sf.Cases = *cases\n\tsfvals := sf.Vals\n\tvs := *vals\n\tfor i, p := range *cases {\n\t\tsfvals[i] = vs[p]\n\t}', 'sf.Cases = *cases\n\tfor i := 0; i < len(sf.Cases); i++ {\n\t\tsf.Vals[i] = (*vals)[sf.Cases[i]]\n\t}')

# C20
bad('C20', 'utils.go', 'rm.mutex.Lock()\n\tmean = rm.Mean\n\tcount = rm.Count\n\trm.mutex.Unlock()', 'rm.mutex.Lock()\n\tmean = rm.Mean\n\trm.mutex.Unlock()\n\tcount = rm.Count')
bad('C20', 'utils.go', 'rm.mutex.Lock()\n\t\trm.Mean = ', 'm, _ := rm.Read()\n\t\trm.mutex.Lock()\n\t\trm.Mean = m + 0*')
bad('C20', 'utils.go', 'sc.mutex.Lock()\n\tdefer sc.mutex.Unlock()\n\trows', 'rows')
bad('C20', 'utils.go', 'sc.mutex.Lock()\n\tdefer sc.mutex.Unlock()\n\tif sc.Map == nil {', 'if sc.Map == nil {')
bad('C20', 'utils.go', 'sc.mutex.Lock()\n\tdefer sc.mutex.Unlock()\n\tif sc.Map == nil {\n\t\tsc.Map = make(map[int]map[int]int, 0)\n\t}\n', 'sc.mutex.Lock()\n\tif sc.Map == nil {\n\t\tsc.Map = make(map[int]map[int]int, 0)\n\t}\n\tcur := sc.Map[i][j]\n\tsc.mutex.Unlock()\n\tsc.mutex.Lock()\n\tdefer sc.mutex.Unlock()\n',
    ('', 'sc.Map[i][j] = sc.Map[i][j] + val', 'sc.Map[i][j] = cur + val'))
bad('C20', 'catballotbox.go', 'bb.Box[casei].Mutex.Lock()', 'bb.Box[0].Mutex.Lock()', ('', 'bb.Box[casei].Mutex.Unlock()', 'bb.Box[0].Mutex.Unlock()'))
bad('C20', 'catballotbox.go', 'bb.catMutex.Lock()\n\tpredn := bb.CatToNum(pred)\n\tbb.catMutex.Unlock()', 'predn := bb.CatToNum(pred)')
bad('C20', 'catballotbox.go', 'bb.catMutex.Lock()\n\tdefer bb.catMutex.Unlock()\n', '')
bad('C20', 'sumballotbox.go', 'bb.Box[i].Mutex.Lock()\n\tpredicted = bb.Box[i].Sum\n\tbb.Box[i].Mutex.Unlock()', 'predicted = bb.Box[i].Sum')
bad('C20', 'numballotbox.go', 'predicted, _ = bb.box[i].Read()', 'predicted = bb.box[i].Mean')
bad('C20', 'catballotbox.go', 'if _, ok := bb.Box[casei].Map[predn]; !ok {', 'if len(bb.Back) > 1000000 {\n\t\treturn\n\t}\n\tif _, ok := bb.Box[casei].Map[predn]; !ok {')
bad('C20', 'utils.go', 'mutex sync.Mutex\n\tMean', 'mutex sync.RWMutex\n\tMean', ('', 'rm.mutex.Lock()\n\t\trm.Mean', 'rm.mutex.RLock()\n\t\trm.Mean'), ('', '\n\t\trm.mutex.Unlock()', '\n\t\trm.mutex.RUnlock()'))
quiet('C20', 'utils.go', 'mutex sync.Mutex\n\tMean', 'mutex sync.RWMutex\n\tMean', ('', 'rm.mutex.Lock()\n\tmean', 'rm.mutex.RLock()\n\tmean'), ('', 'count = rm.Count\n\trm.mutex.Unlock()', 'count = rm.Count\n\trm.mutex.RUnlock()'))
quiet('C20', 'utils.go', 'rm.mutex.Lock()\n\tmean = rm.Mean\n\tcount = rm.Count\n\trm.mutex.Unlock()\n\treturn', 'rm.mutex.Lock()\n\tdefer rm.mutex.Unlock()\n\treturn rm.Mean, rm.Count')
quiet('C20', 'utils.go', 'sc.mutex.Lock()\n\tdefer sc.mutex.Unlock()\n\tif sc.Map == nil {', 'sc.mutex.Lock()\n\tdefer sc.mutex.Unlock()\n\tsc.add(i, j, val)\n}\nfunc (sc *SparseCounter) add(i int, j int, val int) {\n\tif sc.Map == nil {')
quiet('C20', 'catballotbox.go', 'bb.Box[casei].Mutex.Lock()\n\tif _, ok := bb.Box[casei].Map[predn]; !ok {\n\t\tbb.Box[casei].Map[predn] = 0\n\t}\n\tbb.Box[casei].Map[predn] = bb.Box[casei].Map[predn] + weight\n\tbb.Box[casei].Mutex.Unlock()', 'cb := bb.Box[casei]\n\tcb.Mutex.Lock()\n\tdefer cb.Mutex.Unlock()\n\tcb.Map[predn] += weight')
quiet('C20', 'utils.go', '(rm *RunningMean) Add(val float64) {\n\trm.WeightedAdd(val, 1.0)', '(rm *RunningMean) Add(val float64) {\n\tlock(&rm.mutex)\n\trm.Mean += 0\n\tunlock(&rm.mutex)\n\trm.WeightedAdd(val, 1.0)', ('', 'func ParseFloat(', 'func lock(m *sync.Mutex) { m.Lock() }\nfunc unlock(m *sync.Mutex) { m.Unlock() }\nfunc ParseFloat('))
quiet('C20', 'sumballotbox.go', 'bb.Box[casei].Mutex.Lock()\n\t\tbb.Box[casei].Sum += v * weight\n\t\tbb.Box[casei].Mutex.Unlock()', 'func() {\n\t\t\tb := bb.Box[casei]\n\t\t\tb.Mutex.Lock()\n\t\t\tdefer b.Mutex.Unlock()\n\t\t\tb.Sum = b.Sum + weight*v\n\t\t}()')

# C21
bad('C21', 'utils.go', 'if rm.Count == 0 {\n\t\t\tlog.Print("WeightedAdd reached 0 count!.")', 'if rm.Count == 0 {\n\t\t\tlog.Print("WeightedAdd reached 0 count!.")\n\t\t\treturn')
bad('C21', 'utils.go', 'sc.mutex.Lock()\n\tdefer sc.mutex.Unlock()\n\tif sc', 'sc.mutex.Lock()\n\tif i == j && sc.Map != nil && sc.Map[i] != nil {\n\t\tsc.Map[i][j] += val\n\t\treturn\n\t}\n\tdefer sc.mutex.Unlock()\n\tif sc')
bad('C21', 'catballotbox.go', 'bb.catMutex.Lock()\n\tpredn := bb.CatToNum(pred)\n\tbb.catMutex.Unlock()\n\tbb.Box[casei].Mutex.Lock()', 'bb.Box[casei].Mutex.Lock()\n\tbb.catMutex.Lock()\n\tpredn := bb.CatToNum(pred)\n\tbb.catMutex.Unlock()')
bad('C21', 'growforest/growforest.go', 'if nCores > 1 {\n\t\t\t\t\t\t\t\twaitGroup.Done()\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\tbreak', 'break')
bad('C21', 'growforest/growforest.go', 'recordingTree.Unlock()\n\t\t\t\t\t\t\twaitGroup.Done()', 'waitGroup.Done()')
bad('C21', 'growforest/growforest.go', 'recordingTree.Unlock()\n\t\t\t\t\t\t\twaitGroup.Done()', 'recordingTree.Unlock()')
bad('C21', 'growforest/growforest.go', 'treesStarted++\n\t\t\t\t\t} else {', 'treesStarted++\n\t\t\t\t\t\tif progress { continue }\n\t\t\t\t\t} else {')
bad('C21', 'growforest/growforest.go', 'waitGroup.Add(nCores)', 'waitGroup.Add(nTrees)')
bad('C21', 'growforest/growforest.go', 'if nCores > 1 {\n\t\t\twaitGroup.Wait()\n\t\t}', 'if nCores > 1 && ace == 0 {\n\t\t\twaitGroup.Wait()\n\t\t}')
bad('C21', 'growforest/growforest.go', 'if nCores > 1 {\n\t\t\t\tgo grow()', 'if nCores > 1 && core == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tif nCores > 1 {\n\t\t\t\tgo grow()')
bad('C21', 'growforest/growforest.go', 'boostMutex.Unlock()\n\t\t\t\t\t\tif weight == math.Inf(1) {', 'if weight == math.Inf(1) {', ('', '\t\t\t\t\t\ttree.Weight = weight\n', '\t\t\t\t\t\tboostMutex.Unlock()\n\t\t\t\t\t\ttree.Weight = weight\n'))
bad('C21', 'leafcount/leafcount.go', 'doneChan <- 1\n\t\t\t}', 'if len(forest.Trees) > 0 {\n\t\t\t\t\tdoneChan <- 1\n\t\t\t\t}\n\t\t\t}')
bad('C21', 'leafcount/leafcount.go', 'log.Print("Forest has ", len(forest.Trees), " trees ")', 'doneChan <- 1\n\t\t\t\tlog.Print("Forest has ", len(forest.Trees), " trees ")', ('', 'doneChan <- 1\n\t\t\t}', '}'))
bad('C21', 'leafcount/leafcount.go', 'for i := 0; i < len(files); i++ {\n\t\t<-doneChan', 'for i := 0; i < threads; i++ {\n\t\t<-doneChan')
bad('C21', 'leafcount/leafcount.go', 'for i := 0; i < len(files); i++ {\n\t\t<-doneChan', 'for i := 1; i < len(files); i++ {\n\t\t<-doneChan')
bad('C21', 'leafcount/leafcount.go', 'splitsMutex.Lock()\n\t\t\t\t\t\t\t\tdefer splitsMutex.Unlock()', 'splitsMutex.Lock()', ('', 'splits[name] = append(splits[name], split)', 'splits[name] = append(splits[name], split)\n\t\t\t\t\t\t\t\tif split == "" {\n\t\t\t\t\t\t\t\t\treturn\n\t\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t\tsplitsMutex.Unlock()'))
bad('C21', 'leafcount/leafcount.go', 'for _, fn := range files {\n\t\t\tfileChan <- fn', 'for _, fn := range files {\n\t\t\tif fn == "" {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tfileChan <- fn')
quiet('C21', 'growforest/growforest.go', 'waitGroup.Add(nCores)', '', ('', 'if nCores > 1 {\n\t\t\t\tgo grow()', 'if nCores > 1 {\n\t\t\t\twaitGroup.Add(1)\n\t\t\t\tgo grow()'))
quiet('C21', 'growforest/growforest.go', 'recordingTree.Unlock()\n\t\t\t\t\t\t\twaitGroup.Done()', 'waitGroup.Done()\n\t\t\t\t\t\t\trecordingTree.Unlock()')
quiet('C21', 'growforest/growforest.go', 'go grow()\n\t\t\t} else {\n\t\t\t\tgrow()\n\t\t\t}', 'go func() {\n\t\t\t\t\tdefer waitGroup.Done()\n\t\t\t\t\tgrow()\n\t\t\t\t}()\n\t\t\t} else {\n\t\t\t\tgrow()\n\t\t\t}', ('', 'recordingTree.Unlock()\n\t\t\t\t\t\t\twaitGroup.Done()', 'recordingTree.Unlock()'), ('', 'if nCores > 1 {\n\t\t\t\t\t\t\t\twaitGroup.Done()\n\t\t\t\t\t\t\t}\n', ''))
quiet('C21', 'growforest/growforest.go', 'if nCores > 1 {\n\t\t\twaitGroup.Wait()\n\t\t}', 'if 1 < nCores {\n\t\t\twaitGroup.Wait()\n\t\t}')
quiet('C21', 'growforest/growforest.go', 'for core := 0; core < nCores; core++ {', 'for core := nCores; core > 0; core-- {')
quiet('C21', 'growforest/growforest.go', 'if nCores > 1 {\n\t\t\t\t\t\trecordingTree.Lock()\n\t\t\t\t\t}', 'lock()', ('', 'grow := func() {\n', 'lock := func() {\n\t\t\t\tif nCores > 1 {\n\t\t\t\t\trecordingTree.Lock()\n\t\t\t\t}\n\t\t\t}\n\t\t\tgrow := func() {\n'))
quiet('C21', 'growforest/growforest.go', 'waitGroup.Add(nCores)', 'parallel := nCores > 1\n\t\twaitGroup.Add(nCores)', ('', 'if nCores > 1 {\n\t\t\t\t\t\trecordingTree.Lock()', 'if parallel {\n\t\t\t\t\t\trecordingTree.Lock()'), ('', 'if nCores > 1 {\n\t\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t\t\twait', 'if parallel {\n\t\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t\t\twait'))
quiet('C21', 'leafcount/leafcount.go', 'for i := 0; i < len(files); i++ {\n\t\t<-doneChan', 'for range files {\n\t\t<-doneChan')
quiet('C21', 'leafcount/leafcount.go', 'go func() {\n\t\tfor _, fn := range files {\n\t\t\tfileChan <- fn\n\t\t}\n', 'go func() {\n\t\tfor i := 0; i < len(files); i++ {\n\t\t\tfileChan <- files[i]\n\t\t}\n\t\tclose(fileChan)\n', ('', 'for {\n\t\t\t\tfn := <-fileChan\n', 'for fn := range fileChan {\n'))
quiet('C21', 'catballotbox.go', 'bb.Box[casei].Mutex.Lock()\n\tif _, ok := bb.Box[casei].Map[predn]; !ok {', 'bb.Box[casei].Mutex.Lock()\n\tif weight == 0 {\n\t\tbb.Box[casei].Mutex.Unlock()\n\t\treturn\n\t}\n\tif _, ok := bb.Box[casei].Map[predn]; !ok {')

# C22
bad('C22', 'growforest/growforest.go', 'grow := func() {\n', 'grow := func() {\n\t\t\t\ttreesStarted = treesStarted\n')
bad('C22', 'growforest/growforest.go', 'allocs := CloudForest.NewBestSplitAllocs(nSamples, targetf)\n', '', ('', 'for core := 0; core < nCores; core++ {', 'allocs := CloudForest.NewBestSplitAllocs(nSamples, targetf)\n\t\tfor core := 0; core < nCores; core++ {'))
bad('C22', 'growforest/growforest.go', 'canidates := make([]int, 0, len(data.Data))\n\t\t\t\tfor i := 0; i < len(data.Data); i++ {\n\t\t\t\t\tif i != targeti && !blacklistis[i] {\n\t\t\t\t\t\tcanidates = append(canidates, i)\n\t\t\t\t\t}\n\t\t\t\t}\n', '', ('', 'for foresti := 0; foresti < nForest; foresti++ {\n', 'canidates := make([]int, 0, len(data.Data))\n\t\t\t\tfor i := 0; i < len(data.Data); i++ {\n\t\t\t\t\tif i != targeti && !blacklistis[i] {\n\t\t\t\t\t\tcanidates = append(canidates, i)\n\t\t\t\t\t}\n\t\t\t\t}\n\tfor foresti := 0; foresti < nForest; foresti++ {\n'))
bad('C22', 'growforest/growforest.go', 'boostMutex.Lock()', 'boostMutex.Lock()\n\t\t\t\t\t\tboostMutex.Unlock()', ('', ('boostMutex.Unlock()',1), ''))
bad('C22', 'growforest/growforest.go', 'if forestwriter != nil && foresti == nForest-1 {\n\t\t\t\t\t\tforestwriter.WriteTree(tree, treesFinished)\n\t\t\t\t\t}\n', '', ('', '////////////// Lock mutext to ouput tree ////////\n', 'if forestwriter != nil && foresti == nForest-1 {\n\t\t\t\t\t\tforestwriter.WriteTree(tree, treesFinished)\n\t\t\t\t\t}\n'))
bad('C22', 'growforest/growforest.go', 'var recordingTree sync.Mutex\n', '', ('', 'grow := func() {\n', 'var recordingTree sync.Mutex\n\t\t\tgrow := func() {\n'))
bad('C22', 'growforest/growforest.go', 'if nCores > 1 {\n\t\t\t\t\t\trecordingTree.Lock()\n\t\t\t\t\t}', 'if nCores > 2 {\n\t\t\t\t\t\trecordingTree.Lock()\n\t\t\t\t\t}')
bad('C22', 'growforest/growforest.go', 'var depthUsed *[]int\n\t\t\t\tif mmdpnt != nil {', 'if mmdpnt != nil {', ('', 'var treesStarted, treesFinished int\n', 'var treesStarted, treesFinished int\n\t\tvar depthUsed *[]int\n'))
bad('C22', 'growforest/growforest.go', '(*mmdpnt)[i].Add(float64(v))', '(*mmdpnt)[i].Mean += float64(v)')
bad('C22', 'tree.go', '(*importance)[fi].Add(impDec)', '(*importance)[fi].Count += impDec')
bad('C22', 'leafcount/leafcount.go', 'splitsMutex.Lock()\n\t\t\t\t\t\t\t\tdefer splitsMutex.Unlock()', 'splitsMutex.Lock()\n\t\t\t\t\t\t\t\tsplitsMutex.Unlock()')
bad('C22', 'leafcount/leafcount.go', 'splitsMutex.Lock()\n\t\t\t\t\t\t\t\tdefer splitsMutex.Unlock()\n\t\t\t\t\t\t\t\tname := n.Splitter.Feature\n\t\t\t\t\t\t\t\t_, ok := splits[name]', 'name := n.Splitter.Feature\n\t\t\t\t\t\t\t\t_, ok := splits[name]\n\t\t\t\t\t\t\t\tsplitsMutex.Lock()\n\t\t\t\t\t\t\t\tdefer splitsMutex.Unlock()\n')
bad('C22', 'leafcount/leafcount.go', 'go func() {\n\t\t\tfor {', 'go func() {\n\t\t\tvar splitsMutex sync.Mutex\n\t\t\tfor {', ('', '\tvar splitsMutex sync.Mutex\n', ''))
quiet('C22', 'leafcount/leafcount.go', 'splitsMutex.Lock()\n\t\t\t\t\t\t\t\tdefer splitsMutex.Unlock()\n', '', ('', '_, ok := splits[name]\n', 'splitsMutex.Lock()\n\t\t\t\t\t\t\t\tdefer splitsMutex.Unlock()\n\t\t\t\t\t\t\t\t_, ok := splits[name]\n'))
quiet('C22', 'growforest/growforest.go', 'trees = append(trees, tree)\n\n', 'record(&trees, tree)\n', ('', 'func main() {', 'func record(to *[]*CloudForest.Tree, tr *CloudForest.Tree) {\n\t*to = append(*to, tr)\n}\n\nfunc main() {'))
quiet('C22', 'growforest/growforest.go', 'if treesStarted < nTrees {\n\t\t\t\t\t\ttreesStarted++\n\t\t\t\t\t} else {', 'more := treesStarted < nTrees\n\t\t\t\t\tif more {\n\t\t\t\t\t\ttreesStarted++\n\t\t\t\t\t} else {')
quiet('C22', 'growforest/growforest.go', 'for core := 0; core < nCores; core++ {', 'for core := 0; core < nCores; core++ {\n\t\t\tcounter := 0', ('', 'weight := -1.0\n', 'weight := -1.0\n\t\t\t\tcounter++\n'))

# ---- C14 ----
bad('C14', 'libsvm.go', 'noTargetFm.Data = append(noTargetFm.Data, f.Copy())', 'noTargetFm.Data = append(noTargetFm.Data, f)')
bad('C14', 'splitallocations.go', 'target.(Feature).Copy().(Target),', 'target,')
bad('C14', 'l1target.go', '	m := target.Mean(cases)\n', '	sort.Ints(*cases)\n	m := target.Mean(cases)\n', ('', 'import (', 'import (\n"sort"\n'))
bad('C14', 'densecatfeature.go', '	cached := allocs.CatVals\n', '	if f.NCats() == 2 && len(*cases) == f.Length() {\n\t\tallocs.CatVals = f.CatData\n\t}\n	cached := allocs.CatVals\n')
bad('C14', 'featurematrix.go', 'vals = append(vals, fm.CaseLabels[cases[i]])', 'fm.CaseLabels[cases[i]] = strings.TrimSpace(fm.CaseLabels[cases[i]])\n\t\tvals = append(vals, fm.CaseLabels[cases[i]])')
bad('C14', 'forestwriter.go', 'func (fw *ForestWriter) WriteNode(n *Node, path string) {', 'func (fw *ForestWriter) WriteNode(n *Node, path string) {\n\tn.CodedSplit = nil')
bad('C14', 'densecatfeature.go', '	e = target.GiniWithoutAlocate(cases, counter)\n\n	return', '	e = target.GiniWithoutAlocate(cases, counter)\n	target.HasMissing = false\n	return')
bad('C14', 'node.go', '	r(n, cases, depth)\n', '	r(n, cases, depth)\n	if n.Splitter != nil && fm != nil && len(fm.Data) > 0 {\n\t\tfm.Map[n.Splitter.Feature] = fm.Map[n.Splitter.Feature]\n\t}\n')
bad('C14', 'splitter.go', '	hasmissing := f.MissingVals()\n', '	hasmissing := f.MissingVals()\n	delete(s.Left, "NA")\n')
bad('C14', 'catballotbox.go', '			if catfeature.NumToCat(value) == predicted {', '			if catfeature.CatToNum(predicted) == value {')
bad('C14', 'numballotbox.go', '	e = 0.0\n', '	e = 0.0\n	feature.ImputeMissing()\n')
bad('C14', 'densenumfeature.go', 'func (f *DenseNumFeature) DecodeSplit(codedSplit interface{}) (s *Splitter) {', 'var lastDecoded interface{}\n\nfunc (f *DenseNumFeature) DecodeSplit(codedSplit interface{}) (s *Splitter) {\n\tlastDecoded = codedSplit')
bad('C14', 'adaboosttarget.go', '	weight = 0.0\n	counter := make([]int, t.NCats())\n', '	weight = 0.0\n	t.CatFeature.PutMissing(0)\n	counter := make([]int, t.NCats())\n')
quiet('C14', 'densecatfeature.go', '	e = target.GiniWithoutAlocate(cases, counter)\n\n	return', '	n := *counter\n	target.CountPerCat(cases, &n)\n	e = target.ImpFromCounts(len(*cases), &n)\n	return')
quiet('C14', 'l1target.go', '	m := target.Mean(cases)\n', '	own := append([]int(nil), *cases...)\n	sort.Ints(own)\n	m := target.Mean(&own)\n', ('', 'import (', 'import (\n"sort"\n'))
quiet('C14', 'libsvm.go', 'noTargetFm.Data = append(noTargetFm.Data, f.Copy())', 'g := f.Copy()\n\t\t\tg.ImputeMissing()\n\t\t\tnoTargetFm.Data = append(noTargetFm.Data, g)')
quiet('C14', 'splitallocations.go', 'target.(Feature).Copy().(Target),', 'contrastOf(target),', ('', 'func NewBestSplitAllocs', 'func contrastOf(t Target) Target {\n\tf := t.(Feature)\n\treturn f.Copy().(Target)\n}\n\nfunc NewBestSplitAllocs'))

# C24
GF = 'growforest/growforest.go'
CAND = 'if i != targeti && !blacklistis[i] {\n\t\t\t\t\t\tcanidates = append(canidates, i)\n\t\t\t\t\t}'
bad('C24', GF, CAND, CAND.replace('i != targeti && ', ''))
bad('C24', GF, CAND, CAND.replace(' && !blacklistis[i]', ''))
bad('C24', GF, CAND, CAND.replace('i != targeti && !blacklistis[i]', 'i != targeti && (ace > 0 || !blacklistis[i])'))
bad('C24', GF, 'for i := 0; i < len(data.Data); i++ {\n\t\t\t\t\tif i != targeti', 'for i := 0; i < firstace; i++ {\n\t\t\t\t\tif i != targeti')
bad('C24', GF, 'for i := 0; i < len(data.Data); i++ {\n\t\t\t\t\tif i != targeti', 'for i := 1; i < len(data.Data); i++ {\n\t\t\t\t\tif i != targeti')
bad('C24', GF, 'blacklistis[targeti+firstace] = true', '_ = targeti')
bad('C24', GF, 'blacklistis[targeti+firstace] = true', 'blacklistis[targeti] = true')
bad('C24', GF, 'blacklistis = append(blacklistis, blacklistis[i])', 'blacklistis = append(blacklistis, false)')
bad('C24', GF, 'if targeti != i && re.MatchString(feature.GetName()) {\n\t\t\t\tif blacklistis[i] == false {\n\t\t\t\t\tblacklisted += 1\n\t\t\t\t\tblacklistis[i] = true', 'if targeti != i && re.MatchString(feature.GetName()) {\n\t\t\t\tif blacklistis[i] == false {\n\t\t\t\t\tblacklisted += 1\n\t\t\t\t\tblacklistis[i] = blacklisted > 0 && feature.NCats() == 0')
bad('C24', GF, 'if targeti != i && !re.MatchString(feature.GetName()) {\n\t\t\t\tif blacklistis[i] == false {\n\t\t\t\t\tblacklisted += 1\n\t\t\t\t\tblacklistis[i] = true\n\t\t\t\t}', 'if targeti != i && !re.MatchString(feature.GetName()) {\n\t\t\t\tif blacklistis[i] == false {\n\t\t\t\t\tblacklisted += 1\n\t\t\t\t\tblacklistis[i] = true\n\t\t\t\t}\n\t\t\t} else if blacklistis[i] {\n\t\t\t\tblacklistis[i] = false')
bad('C24', GF, 'if includeRE != "" {', 'if includeRE != "" && blockRE == "" {')
bad('C24', GF, 'if blockRE != "" {', 'if len(blockRE) > 1 {')
bad('C24', GF, 'if !blacklistis[i] {\n\t\t\t\tblacklisted += 1\n\t\t\t\tblacklistis[i] = true\n\t\t\t}', 'blacklistis[i] = !blacklistis[i]')
bad('C24', GF, 'fmt.Printf("Ignoring blacklist feature not found in data: %v\\n", id[0])\n\t\t\t\tcontinue', 'fmt.Printf("Ignoring blacklist feature not found in data: %v\\n", id[0])\n\t\t\t\tbreak')
bad('C24', GF, 'if *blacklist != "" {', 'if *blacklist != "" && blockRE == "" {')
bad('C24', GF, 're := regexp.MustCompile(includeRE)\n\t\tfor i, feature := range data.Data {', 're := regexp.MustCompile(includeRE)\n\t\tfor i, feature := range data.Data[1:] {')
bad('C24', 'featurematrix.go', 'i := cans[lastSample]\n', 'i := cans[lastSample]\n\t\tif constant {\n\t\t\ti = lastSample\n\t\t}\n')
bad('C24', 'featurematrix.go', 'i := cans[lastSample]\n', 'i := cans[lastSample]\n\t\tif randi == 0 {\n\t\t\ti = bestFi\n\t\t}\n')
bad('C24', 'featurematrix.go', '\t\t\tbestFi = i\n', '\t\t\tbestFi = lastSample\n')
bad('C24', 'featurematrix.go', '\t\t\tbestFi = i\n\t\t\timpurityDecrease = inerImp\n', '\t\t\tbestFi = cans[lastSample]\n\t\t\timpurityDecrease = inerImp\n')
bad('C24', 'featurematrix.go', 'fake := fm.Data[i].ShuffledCopy()', 'fake := fm.Data[nrealfeatures-1-i].ShuffledCopy()')
bad('C24', 'featurematrix.go', '\t\t\tcans[lastSample] = swap\n', '_ = swap\n')
quiet('C24', GF, CAND, 'if i == targeti || blacklistis[i] {\n\t\t\t\t\t\tcontinue\n\t\t\t\t\t}\n\t\t\t\t\tcanidates = append(canidates, i)')
quiet('C24', GF, 'for i := 0; i < len(data.Data); i++ {\n\t\t\t\t\t' + CAND, 'for i := range data.Data {\n\t\t\t\t\tif blacklistis[i] || targeti == i {\n\t\t\t\t\t} else {\n\t\t\t\t\t\tcanidates = append(canidates, i)\n\t\t\t\t\t}')
quiet('C24', GF, 'if blacklistis[i] == false {\n\t\t\t\t\tblacklisted += 1\n\t\t\t\t\tblacklistis[i] = true\n\t\t\t\t}\n\n\t\t\t}\n\n\t\t}\n\n\t}', 'if !blacklistis[i] {\n\t\t\t\t\tblacklisted++\n\t\t\t\t}\n\t\t\t\tblacklistis[i] = true\n\t\t\t}\n\t\t}\n\t}')
quiet('C24', GF, 'for i := 0; i < firstace; i++ {\n\t\t\tblacklistis = append(blacklistis, blacklistis[i])\n\t\t}', 'for i := range blacklistis {\n\t\t\tblacklistis = append(blacklistis, blacklistis[i])\n\t\t}')
quiet('C24', GF, 'for i := 0; i < firstace; i++ {\n\t\t\tblacklistis = append(blacklistis, blacklistis[i])\n\t\t}', 'for _, b := range blacklistis {\n\t\t\tblacklistis = append(blacklistis, b)\n\t\t}')
quiet('C24', GF, 'for i := 0; i < firstace; i++ {\n\t\t\tblacklistis = append(blacklistis, blacklistis[i])\n\t\t}', 'blacklistis = append(blacklistis, blacklistis...)')
quiet('C24', GF, 'canidates := make([]int, 0, len(data.Data))\n\t\t\t\tfor i := 0; i < len(data.Data); i++ {\n\t\t\t\t\t' + CAND + '\n\t\t\t\t}', 'canidates := usable(len(data.Data), targeti, blacklistis)', ('', 'func main() {', 'func usable(n, target int, out []bool) (c []int) {\n\tfor i := 0; i < n; i++ {\n\t\tif i == target {\n\t\t\tcontinue\n\t\t}\n\t\tif !out[i] {\n\t\t\tc = append(c, i)\n\t\t}\n\t}\n\treturn c\n}\n\nfunc main() {'))
quiet('C24', GF, 'if targeti != i && !re.MatchString(feature.GetName()) {\n\t\t\t\tif blacklistis[i] == false {\n\t\t\t\t\tblacklisted += 1\n\t\t\t\t\tblacklistis[i] = true\n\t\t\t\t}\n\n\t\t\t}', 'if targeti == i || re.MatchString(feature.GetName()) || blacklistis[i] {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tblacklisted++\n\t\t\tblacklistis[i] = true')
quiet('C24', 'featurematrix.go', '\t\t\tswap = cans[randi]\n\t\t\tcans[randi] = cans[lastSample]\n\t\t\tcans[lastSample] = swap\n', '\t\t\tcans[randi], cans[lastSample] = cans[lastSample], cans[randi]\n', ('', 'lastSample, swap int', 'lastSample int'))
quiet('C24', 'featurematrix.go', 'if inerImp > impurityDecrease {\n\t\t\tbestFi = i\n\t\t\timpurityDecrease = inerImp\n\t\t\tbestSplit = split\n\t\t}', 'if inerImp <= impurityDecrease {\n\t\t\tcontinue\n\t\t}\n\t\tbestFi, impurityDecrease, bestSplit = i, inerImp, split')

# C25
DRAW = 'r := rand.Intn(nCases)\n\t\t\t\t\t\t\t\tif !targetf.IsMissing(r) {\n\t\t\t\t\t\t\t\t\tcases = append(cases, r)\n\t\t\t\t\t\t\t\t}'
ALLK = 'if !targetf.IsMissing(i) {\n\t\t\t\t\t\t\tcases = append(cases, i)\n\t\t\t\t\t\t}'
ALLK2 = 'if !targetf.IsMissing(i) {\n\t\t\t\t\t\t\t\tcases = append(cases, i)\n\t\t\t\t\t\t\t}'
bad('C25', GF, DRAW, 'r := rand.Intn(nCases)\n\t\t\t\t\t\t\t\tcases = append(cases, r)')
bad('C25', GF, DRAW, DRAW.replace('targetf.IsMissing(r)', 'targetf.IsMissing(j % nCases)'))
bad('C25', GF, DRAW, DRAW.replace('targetf.IsMissing(r)', 'data.Data[0].IsMissing(r)'))
bad('C25', GF, DRAW, DRAW.replace('!targetf.IsMissing(r)', '!targetf.IsMissing(r) || boost'))
bad('C25', GF, ALLK, 'cases = append(cases, i)')
bad('C25', GF, ALLK2, 'cases = append(cases, i)')
bad('C25', GF, 'for i := 0; i < nCases; i++ {\n\t\t\t\t\t\t\tif !targetf', 'for i := 1; i < nCases; i++ {\n\t\t\t\t\t\t\tif !targetf')
bad('C25', GF, 'for i := 0; i < targetf.Length(); i++ {\n\t\t\t\t\t\tif !targetf', 'for i := 0; i < nNonMissing; i++ {\n\t\t\t\t\t\tif !targetf')
bad('C25', GF, 'cases = cases[0:0]\n\t\t\t\t\t\tfor i := 0; i < nCases', 'for i := 0; i < nCases')
bad('C25', GF, 'CloudForest.NewSecondaryBalancedSampler(targetf.(*CloudForest.DenseCatFeature), data.Data[data.Map[balanceby]].(*CloudForest.DenseCatFeature))', 'CloudForest.NewSecondaryBalancedSampler(data.Data[data.Map[balanceby]].(*CloudForest.DenseCatFeature), targetf.(*CloudForest.DenseCatFeature))')
bad('C25', 'sampeling.go', 'if !catf.IsMissing(i) {\n\t\t\ts.Cases', 'if v < len(s.Cases) {\n\t\t\ts.Cases')
bad('C25', 'sampeling.go', 'if !catf.IsMissing(i) {\n\t\t\ts.Cases', 'if !catf.IsMissing(v) {\n\t\t\ts.Cases')
bad('C25', 'sampeling.go', '!target.IsMissing(i) && !balanceby.IsMissing(i)', '!balanceby.IsMissing(i)')
bad('C25', 'sampeling.go', '!target.IsMissing(i) && !balanceby.IsMissing(i)', '!target.IsMissing(i) || !balanceby.IsMissing(i)')
bad('C25', 'sampeling.go', 's.Samplers[i] = append(s.Samplers[i], make([]int, 0, target.Length()))', 's.Samplers[i] = append(s.Samplers[i], make([]int, 1, target.Length()))')
bad('C25', 'sampeling.go', '(*samples) = append((*samples), s.Cases[c][rand.Intn(len(s.Cases[c]))])', '(*samples) = append((*samples), rand.Intn(len(s.Cases[c])))')
bad('C25', 'sampeling.go', ('(*samples) = (*samples)[0:0]\n', 0), 'if len(*samples) > n {\n\t\t(*samples) = (*samples)[0:0]\n\t}\n')
bad('C25', 'forrest.go', 'if !target.(Feature).IsMissing(i) {\n\t\t\tknown = append(known, i)\n\t\t}', 'known = append(known, i)')
bad('C25', 'forrest.go', 'cases[j] = known[c]', 'if c < len(known) {\n\t\t\t\tcases[j] = c\n\t\t\t}')
bad('C25', 'forrest.go', 'for j, c := range cases {\n', 'for j, c := range cases[:nSamples/2] {\n')
bad('C25', 'forrest.go', 'cases[j] = known[c]\n\t\t}\n', 'cases[j] = known[c]\n\t\t}\n\t\tif i > 0 {\n\t\t\tcases[0] = i\n\t\t}\n')
bad('C25', 'gradboosttarget.go', 'if !f.IsMissing(i) {\n\t\t\tf.Put(i, f.Get(i)-f.LearnRate*predicted)\n\t\t}', 'f.Put(i, f.Get(i)-f.LearnRate*predicted)')
bad('C25', 'gradboosttarget.go', 'if !f.IsMissing(i) {\n\t\t\tsum += f.Get(i)\n\t\t\tknown++\n\t\t}', 'sum += f.Get(i)\n\t\tknown++')
bad('C25', 'gradboostclasstarget.go', 'if f.IsMissing(i) {\n\t\t\tcontinue\n\t\t}\n\t\tpred := ', 'if f.IsMissing(i) && predicted == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tpred := ')
quiet('C25', GF, DRAW, 'r := rand.Intn(nCases)\n\t\t\t\t\t\t\t\tif targetf.IsMissing(r) {\n\t\t\t\t\t\t\t\t\tcontinue\n\t\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t\tcases = append(cases, r)')
quiet('C25', GF, DRAW, 'r := rand.Intn(nCases)\n\t\t\t\t\t\t\t\tfor targetf.IsMissing(r) {\n\t\t\t\t\t\t\t\t\tr = rand.Intn(nCases)\n\t\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t\tcases = append(cases, r)')
quiet('C25', GF, 'for j := 0; len(cases) < nSamples; j++ {\n\t\t\t\t\t\t\t\t' + DRAW, 'var known []int\n\t\t\t\t\t\t\tfor i := 0; i < nCases; i++ {\n\t\t\t\t\t\t\t\tif !targetf.IsMissing(i) {\n\t\t\t\t\t\t\t\t\tknown = append(known, i)\n\t\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\tfor len(cases) < nSamples {\n\t\t\t\t\t\t\t\tcases = append(cases, known[rand.Intn(len(known))])')
quiet('C25', GF, ALLK, 'if targetf.IsMissing(i) {\n\t\t\t\t\t\t\tcontinue\n\t\t\t\t\t\t}\n\t\t\t\t\t\tcases = append(cases, i)')
quiet('C25', GF, 'cases = cases[0:0]\n\t\t\t\t\t\tfor i := 0; i < nCases; i++ {\n\t\t\t\t\t\t\t' + ALLK2 + '\n\t\t\t\t\t\t}', 'cases = knownCases(targetf, cases[:0])', ('', 'func main() {', 'func knownCases(f CloudForest.Feature, out []int) []int {\n\tfor i, n := 0, f.Length(); i < n; i++ {\n\t\tif !f.IsMissing(i) {\n\t\t\tout = append(out, i)\n\t\t}\n\t}\n\treturn out\n}\n\nfunc main() {'))
quiet('C25', 'sampeling.go', 'for i, v := range catf.CatData {\n\t\tif !catf.IsMissing(i) {\n\t\t\ts.Cases[v] = append(s.Cases[v], i)\n\t\t}', 'for i := range catf.CatData {\n\t\tif catf.Missing[i] {\n\t\t\tcontinue\n\t\t}\n\t\tv := catf.Geti(i)\n\t\ts.Cases[v] = append(s.Cases[v], i)')
quiet('C25', 'sampeling.go', 'c = rand.Intn(nCases)\n\t\t(*samples) = append((*samples), s.Cases[c][rand.Intn(len(s.Cases[c]))])', 'class := s.Cases[rand.Intn(nCases)]\n\t\t*samples = append(*samples, class[rand.Intn(len(class))])', ('', 'c := 0\n\tfor i := 0; i < n; i++ {\n\t\tclass', 'for i := 0; i < n; i++ {\n\t\tclass'))
quiet('C25', 'forrest.go', 'cases := SampleWithReplacment(nSamples, len(known))\n\t\tfor j, c := range cases {\n\t\t\tcases[j] = known[c]\n\t\t}', 'cases := make([]int, 0, nSamples)\n\t\tfor _, c := range SampleWithReplacment(nSamples, len(known)) {\n\t\t\tcases = append(cases, known[c])\n\t\t}')
quiet('C25', 'forrest.go', 'cases := SampleWithReplacment(nSamples, len(known))\n\t\tfor j, c := range cases {\n\t\t\tcases[j] = known[c]\n\t\t}', 'cases := drawFrom(known, nSamples)', ('', 'func GrowRandomForest(', 'func drawFrom(from []int, n int) []int {\n\tout := SampleWithReplacment(n, len(from))\n\tfor i := range out {\n\t\tout[i] = from[out[i]]\n\t}\n\treturn out\n}\n\nfunc GrowRandomForest('))
quiet('C25', 'gradboosttarget.go', 'if !f.IsMissing(i) {\n\t\t\tf.Put(i, f.Get(i)-f.LearnRate*predicted)\n\t\t}', 'if f.IsMissing(i) {\n\t\t\tcontinue\n\t\t}\n\t\tnow := f.Get(i) - f.LearnRate*predicted\n\t\tf.Put(i, now)')

# C30
OOBN = '\n\t\t\t\t\t\t'
OOB = 'ibcases := make([]bool, nCases)\n\t\t\t\t\t\tfor _, v := range cases {\n\t\t\t\t\t\t\tibcases[v] = true\n\t\t\t\t\t\t}\n\t\t\t\t\t\toobcases = oobcases[0:0]\n\t\t\t\t\t\tfor i, v := range ibcases {\n\t\t\t\t\t\t\tif !v {\n\t\t\t\t\t\t\t\toobcases = append(oobcases, i)\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}'
OOBIF = 'if oob || evaloob {\n\t\t\t\t\t\t' + OOB + '\n\t\t\t\t\t}\n'
VOTE = 'if oob && foresti == nForest-1 {\n\t\t\t\t\t\ttree.VoteCases(data, oobVotes, oobcases)\n\t\t\t\t\t}\n'
GROWIF = '\t\t\t\t\tif jungle {\n\t\t\t\t\t\ttree.GrowJungle('
bad('C30', GF, 'if !v {\n\t\t\t\t\t\t\t\toobcases', 'if v {\n\t\t\t\t\t\t\t\toobcases')
bad('C30', GF, 'if !v {\n\t\t\t\t\t\t\t\toobcases', 'if !v || boost {\n\t\t\t\t\t\t\t\toobcases')
bad('C30', GF, 'if !v {\n\t\t\t\t\t\t\t\toobcases', 'if !v && !targetf.IsMissing(i) && i < nNonMissing {\n\t\t\t\t\t\t\t\toobcases')
bad('C30', GF, 'tree.VoteCases(data, oobVotes, oobcases)', 'tree.VoteCases(data, oobVotes, cases)')
bad('C30', GF, 'tree.VoteCases(data, oobVotes, oobcases)', 'tree.Vote(data, oobVotes)')
bad('C30', GF, 'oobcases = oobcases[0:0]\n', '')
bad('C30', GF, 'ibcases[v] = true', 'ibcases[v] = !ibcases[v]')
bad('C30', GF, 'ibcases[v] = true', 'ibcases[v] = v < nSamples')
bad('C30', GF, 'for _, v := range cases {\n\t\t\t\t\t\t\tibcases', 'for _, v := range cases[1:] {\n\t\t\t\t\t\t\tibcases')
bad('C30', GF, 'for _, v := range cases {\n\t\t\t\t\t\t\tibcases', 'for v := range cases {\n\t\t\t\t\t\t\tibcases')
bad('C30', GF, 'for i, v := range ibcases {', 'for i, v := range ibcases[:nNonMissing] {')
bad('C30', GF, 'if oob || evaloob {', 'if evaloob {')
bad('C30', GF, 'if oob || evaloob {', 'if oob {')
bad('C30', GF, 'if oob || evaloob {', 'if (oob || evaloob) && !jungle {')
bad('C30', GF, 'if oob || evaloob {', 'if oob && foresti == nForest-1 && len(oobcases) == 0 || evaloob {')
bad('C30', GF, 'ibcases := make([]bool, nCases)\n', '', ('', 'for {\n\t\t\t\t\tnCases := data', 'ibcases := make([]bool, data.Data[0].Length())\n\t\t\t\tfor {\n\t\t\t\t\tnCases := data'))
bad('C30', GF, OOBIF, '', ('', '\t\t\t\t\t//sample nCases case', '\t\t\t\t\t' + OOBIF + '\t\t\t\t\t//sample nCases case'))
bad('C30', GF, OOBIF, '', ('', '\t\t\t\t\tif nobag && nSamples != nCases {', '\t\t\t\t\t' + OOBIF + '\t\t\t\t\tif nobag && nSamples != nCases {'))
bad('C30', GF, VOTE, '', ('', GROWIF, '\t\t\t\t\t' + VOTE + GROWIF))
bad('C30', GF, VOTE, VOTE + VOTE)
bad('C30', GF, 'tree.VoteCases(data', 'if boost {\n\t\t\t\t\t\t\ttree.VoteCases(data, oobVotes, oobcases)\n\t\t\t\t\t\t}\n\t\t\t\t\t\ttree.VoteCases(data')
bad('C30', GF, 'if oob && foresti == nForest-1 {\n\t\t\t\t\t\ttree', 'if oob && foresti == nForest-1 {\n\t\t\t\t\t\ttree := trees[0]\n\t\t\t\t\t\ttree')
bad('C30', GF, (GROWIF, 0), '\t\t\t\t\tif nobag {\n\t\t\t\t\t\tCloudForest.SampleFirstN(&cases, &cases, nSamples, 0)\n\t\t\t\t\t}\n' + GROWIF)
bad('C30', GF, GROWIF, '\t\t\t\t\tif maxDepth > 0 {\n\t\t\t\t\t\tcases[0] = cases[len(cases)-1]\n\t\t\t\t\t\tcases = append(cases, oobcases...)\n\t\t\t\t\t}\n' + GROWIF)
quiet('C30', GF, 'ibcases := make([]bool, nCases)', 'ibcases := make(map[int]bool)', ('', 'for i, v := range ibcases {\n\t\t\t\t\t\t\tif !v {', 'for i := 0; i < nCases; i++ {\n\t\t\t\t\t\t\tif !ibcases[i] {'))
quiet('C30', GF, 'ibcases := make([]bool, nCases)\n', 'for i := range ibcases {\n\t\t\t\t\t\t\tibcases[i] = false\n\t\t\t\t\t\t}\n', ('', 'for {\n\t\t\t\t\tnCases := data', 'ibcases := make([]bool, data.Data[0].Length())\n\t\t\t\tfor {\n\t\t\t\t\tnCases := data'))
quiet('C30', GF, 'if !v {\n\t\t\t\t\t\t\t\toobcases = append(oobcases, i)\n\t\t\t\t\t\t\t}', 'if v {\n\t\t\t\t\t\t\t\tcontinue\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\toobcases = append(oobcases, i)')
quiet('C30', GF, OOB, 'oobcases = outOfBag(cases, nCases, oobcases)', ('', 'func main() {', 'func outOfBag(cases []int, n int, out []int) []int {\n\tin := make([]bool, n)\n\tfor i := range cases {\n\t\tin[cases[i]] = true\n\t}\n\tout = out[:0]\n\tfor i := 0; i < n; i++ {\n\t\tif !in[i] {\n\t\t\tout = append(out, i)\n\t\t}\n\t}\n\treturn out\n}\n\nfunc main() {'))
quiet('C30', GF, OOB, 'oobcases = outOfBag(cases, nCases)', ('', 'func main() {', 'func outOfBag(cases []int, n int) (out []int) {\n\tin := make([]bool, n)\n\tfor _, c := range cases {\n\t\tin[c] = true\n\t}\n\tfor i := range in {\n\t\tif !in[i] {\n\t\t\tout = append(out, i)\n\t\t}\n\t}\n\treturn\n}\n\nfunc main() {'))
quiet('C30', GF, 'if oob || evaloob {', 'if evaloob || oob {')
quiet('C30', GF, 'if oob || evaloob {', 'needoob := oob || evaloob\n\t\t\t\t\tif needoob {')
quiet('C30', GF, 'if oob || evaloob {', '{')
quiet('C30', GF, VOTE, '', ('', '\t\t\t\t\tif mmdpnt != nil {', '\t\t\t\t\t' + VOTE + '\t\t\t\t\tif mmdpnt != nil {'))
quiet('C30', GF, VOTE, 'if oob {\n\t\t\t\t\t\tif foresti == nForest-1 {\n\t\t\t\t\t\t\ttree.VoteCases(data, oobVotes, oobcases)\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n')
quiet('C30', GF, 'oobcases := make([]int, 0, nNonMissing)\n', 'var oobcases []int\n')

# ---- C32 ----
TAIL = '''					if treesStarted < nTrees {
						treesStarted++
					} else {'''
WR = '''					if forestwriter != nil && foresti == nForest-1 {
						forestwriter.WriteTree(tree, treesFinished)
					}
'''
KEEP = '''						trees = append(trees, tree)

						if treesStarted < nTrees {
							//newtree := new(CloudForest.Tree)
							tree = CloudForest.NewTree()
							tree.Target = *targetname
						}
'''
bad('C32', GF, 'treesStarted = nCores', 'treesStarted = 0')
bad('C32', GF, 'treesStarted = nCores', 'treesStarted = 1')
bad('C32', GF, TAIL, TAIL.replace('<', '<='))
bad('C32', GF, TAIL, TAIL.replace('treesStarted < nTrees', 'treesStarted < nTrees-1'))
bad('C32', GF, TAIL, TAIL.replace('treesStarted < nTrees', 'treesStarted < nTrees && !jungle'))
bad('C32', GF, TAIL, TAIL.replace('treesStarted++', 'treesStarted += 2'))
bad('C32', GF, TAIL, TAIL.replace('treesStarted++', 'if progress {\n\t\t\t\t\t\t\ttreesStarted++\n\t\t\t\t\t\t}'))
bad('C32', GF, WR, WR.replace('foresti == nForest-1', 'foresti == 0'))
bad('C32', GF, WR, WR.replace('foresti == nForest-1', 'treesFinished < nTrees && foresti == nForest-1'))
bad('C32', GF, WR, WR + WR)
bad('C32', GF, WR, '', ('', '					if oob && foresti == nForest-1 {\n\t\t\t\t\t\ttree.Vote', '					if boost && forestwriter != nil && foresti == nForest-1 {\n\t\t\t\t\t\tforestwriter.WriteTree(tree, treesFinished)\n\t\t\t\t\t}\n					if oob && foresti == nForest-1 {\n\t\t\t\t\t\ttree.Vote'))
bad('C32', GF, KEEP, '						trees = append(trees, tree)\n')
bad('C32', GF, KEEP, KEEP.replace('treesStarted < nTrees', 'treesStarted < nTrees-1'))
bad('C32', GF, KEEP, KEEP.replace('treesStarted < nTrees', 'treesStarted > nCores && treesStarted < nTrees'))
bad('C32', GF, KEEP, KEEP.replace('							tree.Target = *targetname\n', ''))
bad('C32', GF, KEEP, KEEP.replace('trees = append(trees, tree)', 'if len(trees) < nTrees-1 {\n\t\t\t\t\t\t\ttrees = append(trees, tree)\n\t\t\t\t\t\t}'))
bad('C32', GF, 'tree := CloudForest.NewTree()\n\t\t\t\ttree.Target = *targetname', 'tree := CloudForest.NewTree()')
bad('C32', GF, 'if dotest && foresti == nForest-1 {', 'if dotest && foresti == nForest-1 && !boost {')
bad('C32', GF, 'CloudForest.BuildScikitTree(0, tree.Root, skt)', 'CloudForest.BuildScikitTree(0, CloudForest.NewTree().Root, skt)')
bad('C32', GF, 'if scikitforest != "" {\n\t\t\t\t\t\tskt', 'if scikitforest != "" && treesStarted < nTrees {\n\t\t\t\t\t\tskt')
bad('C32', GF, 'for core := 0; core < nCores; core++ {', 'for core := 0; core <= nCores; core++ {')
bad('C32', GF, 'for core := 0; core < nCores; core++ {', 'for core := 1; core < nCores; core++ {')
bad('C32', GF, 'if nTrees < nCores {', 'if 2*nTrees < nCores {')
bad('C32', GF, '						tree.Weight = weight\n', '						tree.Weight = weight\n\t\t\t\t\t\tif weight < 0 {\n\t\t\t\t\t\t\tcontinue\n\t\t\t\t\t\t}\n')
bad('C32', GF, '					if nCores > 1 {\n						recordingTree.Lock()\n					}\n', '', ('', '					if forestwriter != nil && foresti', '					if nCores > 1 && !progress {\n						recordingTree.Lock()\n					}\n					if forestwriter != nil && foresti'))
quiet('C32', GF, TAIL, TAIL.replace('treesStarted < nTrees', 'nTrees > treesStarted'))
quiet('C32', GF, TAIL, TAIL.replace('treesStarted < nTrees', 'more := nTrees - treesStarted; more > 0'))
quiet('C32', GF, WR, '', ('', '					if scikitforest != "" {\n\t\t\t\t\t\tskt', WR + '					if scikitforest != "" {\n\t\t\t\t\t\tskt'))
quiet('C32', GF, KEEP, '						trees = append(trees, tree)\n						tree = CloudForest.NewTree()\n						tree.Target = *targetname\n')
quiet('C32', GF, 'if dotest && foresti == nForest-1 {', 'lastForest := foresti == nForest-1\n\t\t\t\t\tif dotest && lastForest {')
quiet('C32', GF, 'if dotest && foresti == nForest-1 {', 'if foresti == nForest-1 && dotest {')
quiet('C32', GF, KEEP, '						trees = append(trees, tree)\n						if treesStarted < nTrees {\n							tree = newTree(*targetname)\n						}\n', ('', 'func main() {', 'func newTree(target string) *CloudForest.Tree {\n\tt := CloudForest.NewTree()\n\tt.Target = target\n\treturn t\n}\n\nfunc main() {'), ('', 'tree := CloudForest.NewTree()\n\t\t\t\ttree.Target = *targetname', 'tree := newTree(*targetname)'))
quiet('C32', GF, 'for core := 0; core < nCores; core++ {', 'for core := nCores; core > 0; core-- {')
quiet('C32', GF, 'if nTrees < nCores {', 'if !(nCores <= nTrees) {')
quiet('C32', GF, '					if treesStarted < nTrees {\n						treesStarted++\n					} else {\n						if nCores > 1 {\n							recordingTree.Unlock()\n							waitGroup.Done()\n						}\n						break\n\n					}\n', '					if treesStarted >= nTrees {\n						if nCores > 1 {\n							recordingTree.Unlock()\n							waitGroup.Done()\n						}\n						break\n					}\n					treesStarted++\n')
quiet('C32', GF, '					if treesStarted < nTrees {\n						treesStarted++\n					} else {\n						if nCores > 1 {\n							recordingTree.Unlock()\n							waitGroup.Done()\n						}\n						break\n\n					}\n', '					done := treesStarted >= nTrees\n					if done {\n						if nCores > 1 {\n							recordingTree.Unlock()\n							waitGroup.Done()\n						}\n						break\n					}\n					treesStarted++\n')
quiet('C32', GF, 'for core := 0; core < nCores; core++ {', 'for core := 1; core <= nCores; core++ {')
bad('C32', GF, 'for core := 0; core < nCores; core++ {', 'for core := nCores; core >= 0; core-- {')

# ---- C34 ----
IMPADD = '(*importance)[fi].Add(impDec)'
for nth in (0, 1):
    bad('C34', 'tree.go', (IMPADD, nth), '(*importance)[n.Featurei].Add(impDec)')
    bad('C34', 'tree.go', (IMPADD, nth), '(*importance)[fi].Add(impDec * float64(len(cases)))')
    bad('C34', 'tree.go', (IMPADD, nth), 'if impDec > 0.001 {\n\t\t\t\t\t\t(*importance)[fi].Add(impDec)\n\t\t\t\t\t}')
    bad('C34', 'tree.go', (IMPADD, nth), '(*importance)[fi].WeightedAdd(impDec, float64(len(cases)))')
    bad('C34', 'tree.go', (IMPADD, nth), '(*importance)[fi].Add(impDec)\n\t\t\t\t\tif splitmissing {\n\t\t\t\t\t\t(*importance)[fi].Add(0)\n\t\t\t\t\t}')
    bad('C34', 'tree.go', ('depth < (*depthUsed)[fi]', nth), 'depth > (*depthUsed)[fi]')
    bad('C34', 'tree.go', ('(*depthUsed)[fi] < 0 ||', nth), '(*depthUsed)[fi] <= 0 ||')
    bad('C34', 'tree.go', ('(*depthUsed)[fi] < 0 || depth < (*depthUsed)[fi]', nth), '(*depthUsed)[fi] < 0')
    bad('C34', 'tree.go', ('(*depthUsed)[fi] = depth', nth), '(*depthUsed)[fi] = depth + 1')
    bad('C34', 'tree.go', ('(*depthUsed)[fi] = depth', nth), '(*depthUsed)[candidates[0]] = depth')
    quiet('C34', 'tree.go', (IMPADD, nth), '(*importance)[fi].WeightedAdd(impDec, 1.0)')
    quiet('C34', 'tree.go', ('depth < (*depthUsed)[fi]', nth), '(*depthUsed)[fi] >= depth')
bad('C34', 'tree.go', ('if split != nil {\n				if importance != nil {\n					(*importance)[fi].Add(impDec)\n				}\n', 0), 'if importance != nil {\n					(*importance)[fi].Add(impDec)\n				}\n				if split != nil {\n')
bad('C34', 'tree.go', '		firstThisLevel = lastThisLevel\n\n		depth++', '		firstThisLevel = lastThisLevel\n\n		if !splitmissing {\n			depth++\n		}')
bad('C34', 'tree.go', '		firstThisLevel = lastThisLevel\n', '		firstThisLevel = lastThisLevel - 1\n')
bad('C34', 'utils.go', 'rm := new(RunningMean)\n', '', ('', 'importance := make([]*RunningMean, 0, size)', 'rm := new(RunningMean)\n\timportance := make([]*RunningMean, 0, size)'))
bad('C34', 'utils.go', 'for i := 0; i < size; i++ {\n\t\trm', 'for i := 1; i < size; i++ {\n\t\trm')
quiet('C34', 'utils.go', 'importance := make([]*RunningMean, 0, size)\n\tfor i := 0; i < size; i++ {\n\t\trm := new(RunningMean)\n\t\timportance = append(importance, rm)\n', 'importance := make([]*RunningMean, size)\n\tfor i := range importance {\n\t\timportance[i] = &RunningMean{}\n')
bad('C34', 'forrest.go', 'evaloob, false, importance, nil, allocs', 'evaloob, false, nil, nil, allocs')
MM = '''							if v >= 0 {
								(*mmdpnt)[i].Add(float64(v))
								(*depthUsed)[i] = -1
							}
'''
MML = '''					if mmdpnt != nil {
						for i, v := range *depthUsed {
''' + MM + '''
						}
					}
'''
bad('C34', GF, MM, MM.replace('v >= 0', 'v > 0'))
bad('C34', GF, MM, MM.replace('v >= 0', 'v >= 0 && !blacklistis[i]'))
bad('C34', GF, MM, MM.replace('float64(v)', 'float64(v+1)'))
bad('C34', GF, MM, MM.replace('(*mmdpnt)[i]', '(*imppnt)[i]'))
bad('C34', GF, MM, MM.replace('								(*depthUsed)[i] = -1\n', ''))
bad('C34', GF, MM, MM.replace('(*depthUsed)[i] = -1', '(*depthUsed)[i] = 0'))
bad('C34', GF, MM, MM.replace('if v >= 0 {', 'if v >= -1 {'))
bad('C34', GF, MML, '', ('', '					if jungle {\n\t\t\t\t\t\ttree.GrowJungle', MML + '					if jungle {\n\t\t\t\t\t\ttree.GrowJungle'))
bad('C34', GF, MML, MML.replace('range *depthUsed', 'range (*depthUsed)[:nFeatures-1]'))
bad('C34', GF, MML, MML.replace('if mmdpnt != nil {', 'if mmdpnt != nil && foresti == nForest-1 && !jungle {'))
bad('C34', GF, 'du[i] = -1\n', 'du[i] = 0\n')
bad('C34', GF, 'for i := range du {\n\t\t\t\t\t\tdu[i] = -1\n\t\t\t\t\t}\n', '')
bad('C34', GF, MML, '', ('', '					if oob && foresti == nForest-1 {\n\t\t\t\t\t\ttree.VoteC', '					if !boost {\n' + MML + '					}\n					if oob && foresti == nForest-1 {\n\t\t\t\t\t\ttree.VoteC'))
bad('C34', GF, 'mean*float64(count)/float64(treeCount), treeCount, meanMinDepth', 'mean*float64(count)/float64(nTrees), treeCount, meanMinDepth')
bad('C34', GF, 'mean*float64(count)/float64(nTrees), mean*float64', 'mean/float64(nTrees), mean*float64')
bad('C34', GF, 'meanMinDepth, treeCount := (*mmdpnt)[i].Read()', 'treeCount, meanMinDepth := (*mmdpnt)[i].Read()')
bad('C34', GF, 'for i, v := range *imppnt {', 'for i, v := range (*imppnt)[:targeti] {')
bad('C34', GF, 'aceImps[i][foresti] = mean * float64(count) / float64(nTrees)', 'aceImps[i][foresti] = mean * float64(count)')
bad('C34', GF, 'aceImps[i][foresti] = mean * float64(count) / float64(nTrees)', 'aceImps[i][foresti] = mean + 0*float64(count)')
bad('C34', GF, 'aceImps[i][foresti] =', 'aceImps[i][0] =')
bad('C34', GF, 'for i := 0; i < len(data.Data); i++ {\n\t\t\t\tmean', 'for i := 0; i < firstace; i++ {\n\t\t\t\tmean')
bad('C34', GF, '			imppnt = CloudForest.NewRunningMeans(len(data.Data))\n\n			//Resh', '			if foresti == 0 {\n				imppnt = CloudForest.NewRunningMeans(len(data.Data))\n			}\n			//Resh')
bad('C34', GF, ('stats.Ttest(&aceImps[i], &aceImps[i+firstace])', 0), 'stats.Ttest(&aceImps[i], &aceImps[i+firstace-1])')
bad('C34', GF, ('stats.Ttest(&aceImps[i], &aceImps[i+firstace])', 1), 'stats.Ttest(&aceImps[i], &aceImps[targeti+firstace])')
bad('C34', GF, '	firstace := len(data.Data)\n', '	firstace := len(data.Data)\n	if ace > 0 {\n		defer fmt.Print()\n	}\n', ('', '		data.ContrastAll()\n\n		for i := 0; i < firstace', '		data.ContrastAll()\n		firstace = len(data.Data)\n\n		for i := 0; i < firstace'))
quiet('C34', GF, MM, MM.replace('if v >= 0 {', 'if v > -1 {'))
quiet('C34', GF, MML, MML.replace('for i, v := range *depthUsed {', 'for i := 0; i < len(*depthUsed); i++ {\n							v := (*depthUsed)[i]'))
quiet('C34', GF, MM, '							if v < 0 {\n								continue\n							}\n							(*depthUsed)[i] = -1\n							(*mmdpnt)[i].Add(float64(v))\n'.replace('(*depthUsed)[i] = -1\n							(*mmdpnt)[i].Add(float64(v))', '(*mmdpnt)[i].Add(float64(v))\n							(*depthUsed)[i] = -1'))
quiet('C34', GF, MML, '					if mmdpnt != nil {\n						addDepths(*depthUsed, *mmdpnt)\n					}\n', ('', 'func main() {', 'func addDepths(used []int, means []*CloudForest.RunningMean) {\n\tfor i := range used {\n\t\tif used[i] >= 0 {\n\t\t\tmeans[i].Add(float64(used[i]))\n\t\t\tused[i] = -1\n\t\t}\n\t}\n}\n\nfunc main() {'))
quiet('C34', GF, 'mean*float64(count)/float64(treeCount), treeCount', 'float64(count)*mean/float64(treeCount), treeCount')
quiet('C34', GF, 'for i, v := range *imppnt {\n				mean, count := v.Read()', 'for i := range *imppnt {\n				mean, count := (*imppnt)[i].Read()')
quiet('C34', 'tree.go', ('				if importance != nil {\n					(*importance)[fi].Add(impDec)\n				}\n				if depthUsed != nil && ((*depthUsed)[fi] < 0 || depth < (*depthUsed)[fi]) {\n					(*depthUsed)[fi] = depth\n				}\n', 0), '				creditSplit(importance, depthUsed, fi, impDec, depth)\n', ('', '//Partition partitions', 'func creditSplit(importance *[]*RunningMean, depthUsed *[]int, fi int, impDec float64, depth int) {\n	if importance != nil {\n		imp := *importance\n		imp[fi].Add(impDec)\n	}\n	if depthUsed == nil {\n		return\n	}\n	if d := (*depthUsed)[fi]; d >= 0 && d <= depth {\n		return\n	}\n	(*depthUsed)[fi] = depth\n}\n\n//Partition partitions'))
# ---- C26 ----
ADA, COST, NADA, GB, GBC = 'adaboosttarget.go', 'adacosttarget.go', 'numadaboostingtarget.go', 'gradboosttarget.go', 'gradboostclasstarget.go'
for AF in (ADA, COST):
    bad('C26', AF, 'if weight >= .5 {', 'if weight >= .4 {')
    bad('C26', AF, '	if weight >= .5 {\n		return 0.0\n	}\n', '')
    bad('C26', AF, '		weight += t.Impurity(&cases, &counter)', '		weight = t.Impurity(&cases, &counter)')
    bad('C26', AF, '.5 * math.Log((1-weight)/weight)', '.5 * math.Log(weight/(1-weight))')
    bad('C26', AF, '.5 * math.Log((1-weight)/weight)', 'math.Log((1-weight)/weight)')
    bad('C26', AF, 't.IsMissing(c) == false', 'c >= 0')
    bad('C26', AF, 'if cat != m {\n					t.W', 'if cat == m {\n					t.W')
    bad('C26', AF, 'math.Exp(-weight)', 'math.Exp(weight)')
    bad('C26', AF, 't.Weights[i] = v / normfactor', 't.Weights[i] = v')
    bad('C26', AF, 'normfactor := 0.0', 'normfactor := 1.0')
    bad('C26', AF, 'range t.Weights {\n		normfactor', 'range t.Weights[1:] {\n		normfactor')
    bad('C26', AF, '	for _, v := range t.Weights {\n		normfactor += v\n	}\n', '', ('', '	for _, cases := range *leaves {\n		t.C' if AF == COST else '	for _, cases := range *leaves {\n\n		t.C', '	normfactor := 0.0\n	for _, v := range t.Weights {\n		normfactor += v\n	}\n	for _, cases := range *leaves {\n		t.C'), ('', '		}\n	}\n	normfactor := 0.0\n', '		}\n	}\n'))
    bad('C26', AF, '		t.CountPerCat(&cases, &counter)\n\n		var', '		var')
    bad('C26', AF, '			if c > mc {\n				m = i\n				mc = c\n			}\n		}\n\n		for _, c := range cases {\n', '			if c > mc {\n				m = i\n			}\n		}\n\n		for _, c := range cases {\n')
    bad('C26', AF, 'range counter {\n			if c > mc', 'range counter[:1] {\n			if c > mc')
    bad('C26', AF, '		for _, c := range cases {\n', '		if len(cases) < 2 {\n			continue\n		}\n		for _, c := range cases {\n')
    bad('C26', AF, '		for _, c := range cases {\n			if t.I', '		for _, c := range cases[1:] {\n			if t.I')
    bad('C26', AF, '	if math.IsInf(weight, 1) {\n		//a tree without errors leaves nothing to boost\n		return\n	}\n', '')
    bad('C26', AF, 'Boost(leaves *[][]int, preds *[]string) (weight float64)', 'Boost(leaves *[][]int, preds []string) (weight float64)')
    quiet('C26', AF, '		var m, mc int\n		for i, c := range counter {\n			if c > mc {\n				m = i\n				mc = c\n			}\n		}\n\n		for _, c := range cases {', '		m := mostCounted(counter)\n		for _, c := range cases {', ('', '//Boost performs', 'func mostCounted(counts []int) (m int) {\n	best := 0\n	for i := 0; i < len(counts); i++ {\n		if counts[i] <= best {\n			continue\n		}\n		best = counts[i]\n		m = i\n	}\n	return\n}\n\n//Boost performs') if AF == ADA else ('', '//Boost performs', 'func mostCounted(counts []int) (m int) {\n	best := 0\n	for i, n := range counts {\n		if n > best {\n			m, best = i, n\n		}\n	}\n	return\n}\n\n//Boost performs'))
    quiet('C26', AF, '	normfactor := 0.0\n	for _, v := range t.Weights {\n		normfactor += v\n	}\n	for i, v := range t.Weights {\n		t.Weights[i] = v / normfactor\n	}\n', '	normalise(t.Weights)\n', ('', '//Boost performs', 'func normalise(w []float64) {\n	total := 0.0\n	for i := 0; i < len(w); i++ {\n		total += w[i]\n	}\n	for i := range w {\n		w[i] /= total\n	}\n}\n\n//Boost performs'))
    quiet('C26', AF, '	weight = 0.0\n', '	wrong := 0.0\n', ('', '		weight += t.Impurity(&cases, &counter)', '		wrong += t.Impurity(&cases, &counter)'), ('', 'if weight >= .5 {', 'if wrong >= .5 {'), ('', 'weight = .5 * math.Log((1-weight)/weight)', 'weight = math.Log((1-wrong)/wrong) / 2'))
    quiet('C26', AF, '			if t.IsMissing(c) == false {\n				cat', '			if t.IsMissing(c) {\n				continue\n			}\n			{\n				cat')
bad('C26', COST, 'math.Exp(-weight) * t.Costs[cat]', 'math.Exp(-weight)')
bad('C26', COST, 'math.Exp(weight) * t.Costs[cat]', 'math.Exp(weight) * t.Costs[m]')
quiet('C26', ADA, '				if cat != m {\n					t.Weights[c] = t.Weights[c] * math.Exp(weight)\n				} else {\n					t.Weights[c] = t.Weights[c] * math.Exp(-weight)\n				}', '				sign := 1.0\n				if cat == m {\n					sign = -1\n				}\n				t.Weights[c] *= math.Exp(sign * weight)')
quiet('C26', ADA, '		var m, mc int\n		for i, c := range counter {\n			if c > mc {\n				m = i\n				mc = c\n			}\n		}\n\n		for _, c := range cases {', '		m := t.Modei(&cases)\n		for _, c := range cases {')
bad('C26', NADA, 'if imp > norm {', 'if imp > 2*norm {')
bad('C26', NADA, 'math.Log(norm / imp)', 'math.Log(imp / norm)')
bad('C26', NADA, 'm := t.Predicted(&cases)\n		for', 'm := t.Predicted(&(*leaves)[0])\n		for')
bad('C26', NADA, 't.Norm(c, m)-imp', 'imp-t.Norm(c, m)')
bad('C26', NADA, 't.Norm(c, m)-imp', 't.Norm(c, m)')
bad('C26', NADA, 'imp += t.I', 'imp = t.I')
bad('C26', NADA, 't.Weights[i] = v / normfactor', 't.Weights[i] = v / imp')
quiet('C26', NADA, '	norm := t.NormFactor\n	if imp > norm {', '	norm := t.NormFactor\n	if norm < imp {')
quiet('C26', NADA, 't.Weights[c] * math.Exp(weight*(t.Norm(c, m)-imp))', 'math.Exp(t.Norm(c, m)*weight-imp*weight) * t.Weights[c]')
bad('C26', GB, 'f.Get(i)-f.LearnRate*predicted', 'f.Get(i)-predicted')
bad('C26', GB, 'f.Get(i)-f.LearnRate*predicted', 'f.Get(i)+f.LearnRate*predicted')
bad('C26', GB, 'ParseFloat((*preds)[i])', 'ParseFloat((*preds)[i/2])')
bad('C26', GB, 'for i, cases := range *leaves {', 'for i, cases := range (*leaves)[1:] {')
bad('C26', GB, '	return f.LearnRate\n', '	return 1.0\n')
bad('C26', GB, '	for _, i := range *cases {\n		if !f.I', '	for _, i := range (*cases)[:len(*cases)-1] {\n		if !f.I')
bad('C26', GB, 'f.Put(i, f.Get(i)-f.LearnRate*predicted)', 'f.Put(i, f.Get(i)-f.LearnRate*predicted)\n			f.Put(i, f.Get(i)-f.LearnRate*predicted)')
bad('C26', GB, 'func (f *GradBoostTarget) Boost(', 'func (f GradBoostTarget) boost(')
quiet('C26', GB, '	for i, cases := range *leaves {\n		f.Update(&cases, ParseFloat((*preds)[i]))\n	}', '	for i := range *leaves {\n		f.Update(&(*leaves)[i], ParseFloat((*preds)[i]))\n	}')
quiet('C26', GB, '		if !f.IsMissing(i) {\n			f.Put(i, f.Get(i)-f.LearnRate*predicted)\n		}', '		if f.IsMissing(i) {\n			continue\n		}\n		step := f.LearnRate * predicted\n		f.Put(i, f.Get(i)-step)')
quiet('C26', GB, '	for i, cases := range *leaves {\n		f.Update(&cases, ParseFloat((*preds)[i]))\n	}', '	for i := len(*leaves) - 1; i >= 0; i-- {\n		cases := (*leaves)[i]\n		p := ParseFloat((*preds)[i])\n		for _, c := range cases {\n			if !f.IsMissing(c) {\n				f.Put(c, f.Get(c)-f.LearnRate*p)\n			}\n		}\n	}')
bad('C26', GBC, '		f.Pred.Put(i, pred)\n', '')
bad('C26', GBC, 'Expit(pred)\n		f', 'pred\n		f')
bad('C26', GBC, 'f.Pred.Get(i) + f.LearnRate*predicted', 'f.Pred.Get(i) - f.LearnRate*predicted')
bad('C26', GBC, 'f.Pred.Get(i) + f.LearnRate*predicted', 'f.Prior + f.LearnRate*predicted')
bad('C26', GBC, '		f.Put(i, g)\n', '		f.Actual.Put(i, g)\n')
bad('C26', GBC, 'func (f *GradBoostClassTarget) Boost(', 'func (f *GradBoostClassTarget) BoostAll(')
bad('C26', GBC, 'out *= 0.5', 'out *= 0.25')
bad('C26', GBC, 'g := f.Actual.Get(i) - Expit(pred)', 'g := f.Actual.Get(i) - Expit(f.Pred.Get(i))', ('', '		f.Pred.Put(i, pred)\n', ''), ('', '		f.Put(i, g)\n', '		f.Put(i, g)\n		f.Pred.Put(i, pred)\n'))
quiet('C26', GBC, 'g := f.Actual.Get(i) - Expit(pred)', 'g := f.Actual.Get(i) - Expit(f.Pred.Get(i))')
quiet('C26', GBC, '	out = 0.5 * x\n	out = math.Tanh(out)\n	out += 1.0\n	out *= 0.5\n	return out', '	return 1.0 / (1.0 + math.Exp(-x))')
quiet('C26', GBC, '		f.Pred.Put(i, pred)\n\n		g := f.Actual.Get(i) - Expit(pred)\n		f.Put(i, g)\n', '		f.Put(i, f.Actual.Get(i)-Expit(pred))\n		f.Pred.Put(i, pred)\n')
BST = '''						boostMutex.Lock()
						ls, ps := tree.Partition(data)
						weight = targetf.(CloudForest.BoostingTarget).Boost(ls, ps)
						boostMutex.Unlock()
'''
bad('C26', GF, '						tree.Weight = weight\n', '')
bad('C26', GF, '						tree.Weight = weight\n', '						if weight > 0 {\n							tree.Weight = weight\n						}\n')
bad('C26', GF, '					if boost {\n						boostMutex', '					if boost && !oob {\n						boostMutex')
bad('C26', GF, '					if boost {\n						boostMutex', '					if gradboost != 0 {\n						boostMutex')
bad('C26', GF, '					if boost {\n						boostMutex', '					if boost && foresti == nForest-1 {\n						boostMutex')
bad('C26', GF, BST, BST.replace('tree.Partition(data)', 'tree.Partition(testdata)'), ('', 'nForest := 1\n', 'nForest := 1\n	testdata := &CloudForest.FeatureMatrix{}\n'))
bad('C26', GF, BST, BST.replace('weight = t', 'targetf.(CloudForest.BoostingTarget).Boost(ls, ps)\n						weight = t'))
bad('C26', GF, BST, BST.replace('						boostMutex.Unlock', '						weight = weight * 0.5\n						boostMutex.Unlock'))
bad('C26', GF, '					if oob && foresti == nForest-1 {\n						tree.VoteCases(data, oobVotes, oobcases)\n					}\n', '', ('', '					if boost {\n						boostMutex', '					if oob && foresti == nForest-1 {\n						tree.VoteCases(data, oobVotes, oobcases)\n					}\n					if boost {\n						boostMutex'))
bad('C26', GF, '				targetf = CloudForest.NewTransTarget', '				target = targetf\n				targetf = CloudForest.NewTransTarget', ('', ('			target = targetf\n\n		}\n	}', 0), '\n		}\n	}'))
bad('C26', GF, 'boost := (adaboost || gradboost != 0.0)', 'boost := (adaboost && gradboost == 0.0)')
bad('C26', GF, 'target.(CloudForest.TargetWithIntercept).Intercept()', '0.0')
quiet('C26', GF, BST, '						boostMutex.Lock()\n						weight = boostOnce(tree, data, targetf)\n						boostMutex.Unlock()\n', ('', 'func main() {', 'func boostOnce(t *CloudForest.Tree, fm *CloudForest.FeatureMatrix, f CloudForest.Feature) float64 {\n	leaves, preds := t.Partition(fm)\n	return f.(CloudForest.BoostingTarget).Boost(leaves, preds)\n}\n\nfunc main() {'))
quiet('C26', GF, BST, BST.replace('targetf.(', 'target.('))
quiet('C26', GF, '					if boost {\n						boostMutex', '					if adaboost || gradboost != 0.0 {\n						boostMutex')
quiet('C26', GF, '					if boost {\n						boostMutex', '					if boosting := boost; boosting {\n						boostMutex')
quiet('C26', GF, '						tree.Weight = weight\n					}\n', '					}\n					if boost {\n						tree.Weight = weight\n					}\n')
FB = '''			ls, ps := f.Trees[i].Partition(fm)
			weight := target.(BoostingTarget).Boost(ls, ps)
			if !math.IsInf(weight, 1) {
				f.Trees[i].Weight = weight
			}
'''
FF = 'forrest.go'
bad('C26', FF, FB, FB.replace('f.Trees[i].Partition', 'f.Trees[0].Partition'))
bad('C26', FF, FB, FB.replace('!math.IsInf(weight, 1)', 'weight > 0 && !math.IsInf(weight, 1)'))
bad('C26', FF, FB, FB.replace('f.Trees[i].Weight', 'f.Trees[0].Weight'))
bad('C26', FF, FB, FB.replace('!math.IsInf(weight, 1)', 'math.IsInf(weight, 1)'))
bad('C26', FF, FB, 'if i < nTrees-1 {\n' + FB + '}\n')
bad('C26', FF, 'f.Intercept = target.(TargetWithIntercept).Intercept()', '')
quiet('C26', FF, FB, '			leaves, preds := f.Trees[i].Partition(fm)\n			w := target.(BoostingTarget).Boost(leaves, preds)\n			if math.IsInf(w, 1) {\n				continue\n			}\n			f.Trees[i].Weight = w\n')
quiet('C26', FF, '		switch target.(type) {\n		case BoostingTarget:\n			ls, ps := f.Trees[i].Partition(fm)\n			weight := target.(BoostingTarget).Boost(ls, ps)', '		if bt, ok := target.(BoostingTarget); ok {\n			ls, ps := f.Trees[i].Partition(fm)\n			weight := bt.Boost(ls, ps)')
# ---- C09, C10, C13 ----
NUMF, CATF, FMF = 'densenumfeature.go', 'densecatfeature.go', 'featurematrix.go'
bad('C09', NUMF, 'for i := leafSize; i < stop; i++ {', 'for i := leafSize; i < ncases; i++ {')
bad('C09', NUMF, 'for i := leafSize; i < stop; i++ {', 'for i := leafSize - 1; i < stop; i++ {')
bad('C09', NUMF, 'for i := leafSize; i < stop; i++ {', 'for i := 1; i < stop; i++ {')
bad('C09', NUMF, 'stop := (ncases - leafSize)', 'stop := (ncases - leafSize/2)')
bad('C09', NUMF, 'leafSize = leafSize + allocs.Rnd.Intn(stop-leafSize)', 'leafSize = allocs.Rnd.Intn(stop)')
bad('C09', NUMF, 'allocs.Rnd.Intn(stop-leafSize)', 'allocs.Rnd.Intn(stop)')
bad('C09', NUMF, 'nonmissingparentImp, leafSize, randomSplit, allocs)', 'nonmissingparentImp, 1, randomSplit, allocs)')
bad('C09', CATF, ('if len(left) < leafSize || len(right) < leafSize {', 1), 'if len(left) < leafSize {')
bad('C09', CATF, ('if len(left) < leafSize || len(right) < leafSize {', 0), 'if len(left) < 1 || len(right) < leafSize {')
bad('C09', CATF, ('if len(left) < leafSize || len(right) < leafSize {', 2), 'if len(left) < leafSize && len(right) < leafSize {')
bad('C09', CATF, ('if l < leafSize || len(cs)-r < leafSize {', 0), 'if l < leafSize || r < leafSize {')
bad('C09', CATF, ('if l < leafSize || len(cs)-r < leafSize {', 1), 'if l == 0 || len(cs) == r {')
bad('C09', CATF, 'f.BestCatSplitIter(target, tosplit, nonmissingparentImp, leafSize, allocs)', 'f.BestCatSplitIter(target, tosplit, nonmissingparentImp, 1, allocs)')
bad('C09', FMF, 'f.BestSplit(target, cases, parentImp, leafSize, extraRandom, allocs)', 'f.BestSplit(target, cases, parentImp, mTry, extraRandom, allocs)')
bad('C09', 'tree.go', 'if (depth < maxDepth || maxDepth <= 0) && (2', 'if (depth <= maxDepth || maxDepth <= 0) && (2')
bad('C09', 'tree.go', 'if (depth < maxDepth || maxDepth <= 0) && (2', 'if (2')
bad('C09', 'forrest.go', 'mTry, leafSize, maxDepth, splitmissing, force', 'mTry, leafSize, 0, splitmissing, force')
bad('C09', 'forrest.go', 'mTry, leafSize, maxDepth, splitmissing, force', 'leafSize, mTry, maxDepth, splitmissing, force')
bad('C09', GF, ('oobcases, mTry, leafSize, maxDepth,', 1), 'oobcases, mTry, leafSize, 0,')
bad('C09', GF, '	if leafSize <= 0 {\n		if boost {', '	if leafSize <= 1 {\n		if boost {')
bad('C09', GF, 'ParseAsIntOrFractionOfTotal(StringleafSize, nNonMissing)', 'ParseAsIntOrFractionOfTotal(StringmTry, nNonMissing)')
quiet('C09', NUMF, 'for i := leafSize; i < stop; i++ {', 'for i := leafSize; i <= stop; i++ {')
quiet('C09', NUMF, 'if ncases >= 2*leafSize {', 'if ncases > 1 && ncases >= 2*leafSize {')
quiet('C09', CATF, ('if len(left) < leafSize || len(right) < leafSize {', 1), 'if enough := len(left) >= leafSize && leafSize <= len(right); !enough {')
quiet('C09', CATF, ('if l < leafSize || len(cs)-r < leafSize {', 0), 'nright := len(cs) - r\n		if tooSmall(l, nright, leafSize) {', ('', '/*\nBestBinSplit performs', 'func tooSmall(l, r, least int) bool {\n	return l < least || r < least\n}\n\n/*\nBestBinSplit performs'))
quiet('C09', 'tree.go', 'if (depth < maxDepth || maxDepth <= 0) && (2', 'if !(maxDepth > 0 && depth >= maxDepth) && (2')
quiet('C09', 'tree.go', '(2*leafSize) <= len(*innercases) {', 'len(*innercases) >= leafSize+leafSize {')
quiet('C09', GF, '	if leafSize <= 0 {\n		if boost {', '	if leafSize < 1 {\n		if boost {')
bad('C10', NUMF, '				impurityDecrease = innerimp\n				splitf', '				splitf')
bad('C10', NUMF, 'if innerimp > impurityDecrease {', 'if innerimp < impurityDecrease {')
bad('C10', NUMF, 'allocs.RM = sorted[i:]\n				allocs.MM', 'allocs.RM = sorted[i+1:]\n				allocs.MM')
bad('C10', NUMF, 'if sortedData[i] <= (sortedData[lasti] + constant_cutoff) {', 'if sortedData[i] < sortedData[lasti] {')
quiet('C10', NUMF, 'splitf /= 2.0', 'splitf /= 2.5')
quiet('C10', NUMF, 'splitf += sortedData[i]\n', 'splitf += sortedData[stop]\n')
bad('C10', NUMF, '				if !(splitf >= sortedData[i-1] && splitf < sortedData[i]) {\n					splitf = sortedData[i-1]\n				}\n', '')
bad('C10', CATF, '				innerSplit.Set(nextSplit)\n				innerImp = nextImp\n', '				innerSplit = nextSplit\n				innerImp = nextImp\n')
bad('C10', CATF, 'bestSplit.Set(bits)', 'bestSplit = bits')
bad('C10', CATF, 'bestSplit.Set(bits)', 'bestSplit.Set(i)')
bad('C10', CATF, ('				innerSplit = nextSplit\n', 0), '				innerSplit = 1 << uint(i)\n')
bad('C10', CATF, ('			bestSplit = innerSplit\n', 0), '			bestSplit = innerSplit | nextSplit\n')
bad('C10', CATF, ('if 0 != (nextSplit & (1 << uint(cat))) {', 0), 'if 0 == (nextSplit & (1 << uint(cat))) {')
bad('C10', CATF, '			bestSplit = bits\n', '			bestSplit = i\n')
bad('C10', CATF, '				swaper = cached[j]\n				cached[j] = cached[r]\n				cached[r] = swaper\n', '')
bad('C10', CATF, 'allocs.LM = cs[:l]\n		allocs.RM = cs[r:]', 'allocs.LM = cs[:r]\n		allocs.RM = cs[l:]\n		allocs.LM = cs[:l-1]')
bad('C10', CATF, 'if catdata[swaper] == 1 { //Left', 'if catdata[swaper] > 1 { //Left')
bad('C10', CATF, '	bestSplit = 1\n', '	bestSplit = 3\n')
bad('C10', CATF, '		cached[i] = 1 << uint(catdata[c])', '		cached[i] = 1 << uint(catdata[i])\n		_ = c')
bad('C10', FMF, 'if inerImp > impurityDecrease {\n			bestFi', 'if inerImp >= parentImp {\n			bestFi')
bad('C10', FMF, '			impurityDecrease = inerImp\n			bestSplit', '			impurityDecrease = inerImp + vetImp\n			bestSplit')
bad('C10', FMF, 'inerImp = target.Impurity(oob, allocs.Counter) - t', 'inerImp = target.Impurity(cases, allocs.Counter) - t')
bad('C10', FMF, 'f.Split(split, *oob)', 'f.Split(split, *cases)')
bad('C10', FMF, 'inerImp = inerImp - vetImp', 'inerImp = inerImp + vetImp')
bad('C10', FMF, 'target.SplitImpurity(&l, &r, &m, allocs)', 'target.SplitImpurity(&l, &m, &r, allocs)')
bad('C10', FMF, 'ShuffleCases(casept, allocs)', 'ShuffleCases(cases, allocs)')
bad('C10', FMF, '	if vet {\n		target.(Feature).CopyInTo(allocs.ContrastTarget.(Feature))\n	}\n', '')
bad('C10', FMF, 'f.BestSplit(target, cases, parentImp, leafSize', 'f.BestSplit(target, oob, parentImp, leafSize')
quiet('C10', NUMF, 'if innerimp > impurityDecrease {', 'if impurityDecrease < innerimp {')
quiet('C10', NUMF, 'splitf = sortedData[i-1]\n				splitf += sortedData[i]\n				splitf /= 2.0', 'splitf = (sortedData[i] + sortedData[i-1]) * 0.5')
quiet('C10', NUMF, '				if parentImp < 0 {\n					innerimp = target.SplitImpurity(&allocs.LM, &allocs.RM, nil, allocs)\n				} else {\n					innerimp = parentImp\n					innerimp -= target.SplitImpurity(&allocs.LM, &allocs.RM, nil, allocs)\n				}\n', '				innerimp = target.SplitImpurity(&allocs.LM, &allocs.RM, nil, allocs)\n				if parentImp >= 0 {\n					innerimp = parentImp - innerimp\n				}\n')
quiet('C10', CATF, 'bestSplit.Set(bits)', 'bestSplit = new(big.Int).Set(bits)')
quiet('C10', CATF, ('				if 0 != (nextSplit & (1 << uint(cat))) {\n					left = append(left, c)\n				} else {\n					right = append(right, c)\n				}\n', 0), '				if nextSplit>>uint(cat)&1 == 0 {\n					right = append(right, c)\n					continue\n				}\n				left = append(left, c)\n')
quiet('C10', CATF, '				swaper = cs[j]\n				cs[j] = cs[r]\n				cs[r] = swaper\n\n				swaper = cached[j]\n				cached[j] = cached[r]\n				cached[r] = swaper\n', '				cs[j], cs[r] = cs[r], cs[j]\n				cached[j], cached[r] = cached[r], cached[j]\n', ('', '	swaper := 0\n\n	constant = true', '	constant = true'))
quiet('C10', FMF, 'if inerImp > impurityDecrease {\n			bestFi', 'if impurityDecrease < inerImp {\n			bestFi')
quiet('C10', FMF, '		if inerImp > impurityDecrease {\n			bestFi = i\n			impurityDecrease = inerImp\n			bestSplit = split\n		}\n', '		if inerImp <= impurityDecrease {\n			continue\n		}\n		bestFi, bestSplit, impurityDecrease = i, split, inerImp\n')
quiet('C10', FMF, 'inerImp = inerImp - vetImp', 'inerImp -= vetImp')
quiet('C10', FMF, '			inerImp = target.Impurity(oob, allocs.Counter) - target.SplitImpurity(&l, &r, &m, allocs)', '			after := target.SplitImpurity(&l, &r, &m, allocs)\n			inerImp = target.Impurity(oob, allocs.Counter) - after')
for QF in (NUMF, CATF):
    bad('C13', QF, 'impurityDecrease = parentImp + ((float64(nonmissing)*(impurityDecrease-nonmissingparentImp) - float64(nmissing)*missingimp) / float64(total))', 'impurityDecrease = parentImp + ((float64(nonmissing)*(impurityDecrease-parentImp) - float64(nmissing)*missingimp) / float64(total))')
    bad('C13', QF, '- float64(nmissing)*missingimp)', '+ float64(nmissing)*missingimp)')
    bad('C13', QF, 'impurityDecrease = parentImp + ((f', 'impurityDecrease = ((f')
    bad('C13', QF, 'if f.HasMissing && nmissing > 0 && impurityDecrease > minImp {', 'if f.HasMissing && nmissing > 1 && impurityDecrease > minImp {')
    bad('C13', QF, 'if f.HasMissing && nmissing > 0 && impurityDecrease > minImp {', 'if f.HasMissing && nmissing > 0 && impurityDecrease > 0.1 {')
    bad('C13', QF, 'missingimp = target.Impurity(allocs.Right, allocs.Counter)', 'missingimp = target.Impurity(cases, allocs.Counter)')
    bad('C13', QF, 'nonmissingparentImp = target.Impurity(allocs.NonMissing, allocs.Counter)', 'nonmissingparentImp = parentImp')
    bad('C13', QF, 'nonmissing = total - nmissing', 'nonmissing = total')
    bad('C13', QF, '		if nmissing > 0 {\n			missingimp', '		if nmissing > 1 {\n			missingimp')
    bad('C13', QF, '			if f.Missing[i] {\n				*allocs.Right', '			if f.Missing[i] && i > 0 {\n				*allocs.Right')
    quiet('C13', QF, '		nonmissing = total - nmissing', '		nonmissing = len(*allocs.NonMissing)')
    quiet('C13', QF, 'impurityDecrease = parentImp + ((float64(nonmissing)*(impurityDecrease-nonmissingparentImp) - float64(nmissing)*missingimp) / float64(total))', 'remaining := (float64(nonmissing)*(nonmissingparentImp-impurityDecrease) + float64(nmissing)*missingimp) / float64(total)\n		impurityDecrease = parentImp - remaining')
    quiet('C13', QF, '		for _, i := range *cases {\n			if f.Missing[i] {\n				*allocs.Right = append(*allocs.Right, i)\n			} else {\n				*allocs.NonMissing = append(*allocs.NonMissing, i)\n			}\n		}\n', '		for j := 0; j < len(*cases); j++ {\n			i := (*cases)[j]\n			if !f.IsMissing(i) {\n				*allocs.NonMissing = append(*allocs.NonMissing, i)\n				continue\n			}\n			*allocs.Right = append(*allocs.Right, i)\n		}\n')
    quiet('C13', QF, '		if nmissing > 0 {\n			missingimp = target.Impurity(allocs.Right, allocs.Counter)\n		}\n', '		missingimp = target.Impurity(allocs.Right, allocs.Counter)\n')
DECR = ('', '/*\nFilterMissing loops', 'func decrease(target Target, parentImp float64, l, r *[]int, allocs *BestSplitAllocs) float64 {\n	after := target.SplitImpurity(l, r, nil, allocs)\n	if parentImp < 0 {\n		return after\n	}\n	return parentImp - after\n}\n\n/*\nFilterMissing loops')
for P in ('C09', 'C10', 'C13'):
    quiet(P, CATF, ('			if parentImp < 0 {\n				nextImp = target.SplitImpurity(&left, &right, nil, allocs)\n			} else {\n				nextImp = parentImp\n				nextImp -= target.SplitImpurity(&left, &right, nil, allocs)\n			}\n', 0), '			nextImp = decrease(target, parentImp, &left, &right, allocs)\n', DECR)
    quiet(P, CATF, ('		if parentImp < 0 {\n			innerimp = target.SplitImpurity(&allocs.LM, &allocs.RM, nil, allocs)\n		} else {\n\n			innerimp = parentImp\n			innerimp -= target.SplitImpurity(&allocs.LM, &allocs.RM, nil, allocs)\n		}\n', 0), '		innerimp = decrease(target, parentImp, &allocs.LM, &allocs.RM, allocs)\n', DECR)
    quiet(P, NUMF, '				allocs.LM = sorted[:i]\n				allocs.RM = sorted[i:]\n				if parentImp < 0 {\n					innerimp = target.SplitImpurity(&allocs.LM, &allocs.RM, nil, allocs)\n				} else {\n					innerimp = parentImp\n					innerimp -= target.SplitImpurity(&allocs.LM, &allocs.RM, nil, allocs)\n				}\n', '				allocs.LM, allocs.RM = sorted[:i], sorted[i:]\n				innerimp = decrease(target, parentImp, &allocs.LM, &allocs.RM, allocs)\n', DECR)
    quiet(P, NUMF, '			if lastsplit == 0 {\n				allocs.LM = sorted[:i]\n				allocs.RM = sorted[i:]\n', '			allocs.LM = sorted[:i]\n			allocs.RM = sorted[i:]\n			if lastsplit == 0 {\n', ('', '			} else {\n				allocs.LM = sorted[:i]\n				allocs.RM = sorted[i:]\n', '			} else {\n'))
    quiet(P, NUMF, 'for i := leafSize; i < stop; i++ {\n', 'i := leafSize - 1\n		for i+1 < stop {\n			i++\n')
    quiet(P, NUMF, '				continue\n				if randomSplit {\n					stop++\n				}\n', '				continue\n')
    quiet(P, NUMF, '	if ncases >= 2*leafSize {\n', '	if ncases < 2*leafSize {\n		codedSplit = splitf\n		return\n	}\n	{\n')
    quiet(P, CATF, ('			for _, c := range *cases {\n\n				cat = f.CatData[c]\n				if 0 != (nextSplit & (1 << uint(cat))) {\n					left = append(left, c)\n				} else {\n					right = append(right, c)\n				}\n\n			}\n', 0), '			left, right = f.sides(*cases, nextSplit, left, right)\n', ('', '	cat := 0\n\n	//overall running best impurity and split\n	impurityDecrease = minImp\n	bestSplit = 0\n', '	//overall running best impurity and split\n	impurityDecrease = minImp\n	bestSplit = 0\n'), ('', '/*\nFilterMissing loops', 'func (f *DenseCatFeature) sides(cases []int, bits int, left, right []int) ([]int, []int) {\n	for _, c := range cases {\n		if bits&(1<<uint(f.CatData[c])) != 0 {\n			left = append(left, c)\n			continue\n		}\n		right = append(right, c)\n	}\n	return left, right\n}\n\n/*\nFilterMissing loops'))
    quiet(P, CATF, '			left = left[0:0]\n			right = right[0:0]\n\n			nextSplit.SetBit', '			left, right = left[:0], right[:0]\n\n			nextSplit.SetBit')
    quiet(P, CATF, '		if innerImp > impurityDecrease {\n			bestSplit.Set(innerSplit)\n			impurityDecrease = innerImp\n\n		} else {\n			break\n		}\n', '		if innerImp <= impurityDecrease {\n			break\n		}\n		bestSplit.Set(innerSplit)\n		impurityDecrease = innerImp\n')
    quiet(P, CATF, ('			if bestSplit.Bit(i) != 0 {\n				continue\n			}\n', 0), '			if bestSplit.Bit(i) == 1 {\n				continue\n			}\n')
    quiet(P, CATF, '	if l < leafSize || len(cs)-r < leafSize {\n		constant = true\n		return\n	}\n	a.LM', '	if l < leafSize || length-l < leafSize {\n		constant = true\n		return\n	}\n	a.LM')
    quiet(P, CATF, '	for i, c := range cs {\n		cached[i] = 1 << uint(catdata[c])\n	}\n', '	for i := 0; i < len(cs); i++ {\n		cat := uint(catdata[cs[i]])\n		cached[i] = 1 << cat\n	}\n')
    quiet(P, FMF, '		if evaloob && inerImp > impurityDecrease {\n			//spliter := f.DecodeSplit(split)\n			l, r, m := f.Split(split, *oob) //spliter.Split(fm, *oob)\n			inerImp = target.Impurity(oob, allocs.Counter) - target.SplitImpurity(&l, &r, &m, allocs)\n		}\n', '		if evaloob && inerImp > impurityDecrease {\n			inerImp = oobDecrease(f, target, split, oob, allocs)\n		}\n', ('', '/*\nAddContrasts', 'func oobDecrease(f Feature, target Target, split interface{}, oob *[]int, allocs *BestSplitAllocs) float64 {\n	l, r, m := f.Split(split, *oob)\n	return target.Impurity(oob, allocs.Counter) - target.SplitImpurity(&l, &r, &m, allocs)\n}\n\n/*\nAddContrasts'))
for n in (0, 1, 2):
    bad('C10', CATF, ('	right := *allocs.Right\n', n), '	right := *allocs.Left\n')
    bad('C10', CATF, ('	left := *allocs.Left\n', n), '	left := *allocs.NonMissing\n')

# C27
bad('C27', 'utils.go', '\tsort.Ints(rows)\n', '', ('', '\t"log"\n', '\t"log"\n'))
bad('C27', 'utils.go', '\t\tsort.Ints(cols)\n', '\t\tif len(cols) > 100 {\n\t\t\tsort.Ints(cols)\n\t\t}\n')
bad('C27', 'utils.go', '\t\tsort.Ints(cols)\n\t\tfor _, j := range cols {\n\t\t\tif _, err := fmt.Fprintf(writer, "%v\\t%v\\t%v\\n", i, j, sc.Map[i][j])', '\t\tsort.Ints(cols)\n\t\tfor j, v := range sc.Map[i] {\n\t\t\tif _, err := fmt.Fprintf(writer, "%v\\t%v\\t%v\\n", i, j, v)')
bad('C27', NUMF, 'if v > max || (v == max && k < m) {', 'if v > max {')
bad('C27', NUMF, 'if v > max || (v == max && k < m) {', 'if v >= max {')
bad('C27', NUMF, 'if v > max || (v == max && k < m) {', 'if v > max || (v == max && v > 1 && k < m) {')
bad('C27', 'catballotbox.go', 'if v > votes || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {', 'if v > votes {')
bad('C27', 'catballotbox.go', 'if v > votes || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {', 'if v > votes || (v == votes && votes > 0 && len(bb.Back[k]) < len(bb.Back[predictedn])) {')
bad('C27', 'catballotbox.go', 'if v > votes || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {', 'if v > votes+1e-9 || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {')
bad('C27', 'forestwriter.go', '\tsort.Strings(keys)\n', '', ('', '\t"sort"\n', ''))
bad('C27', 'forestwriter.go', '\tsort.Strings(keys)\n', '\tsort.Strings(keys[:len(keys)/2])\n')
bad('C27', 'forestwriter.go', '\tsort.Strings(keys)\n', '\tsort.Slice(keys, func(i, j int) bool { return len(keys[i]) < len(keys[j]) })\n')
bad('C27', 'leafcount/leafcount.go', '\t\t\t\t\t\t\t\t\tsort.Strings(keys)\n', '', ('', '\t"sort"\n', ''))
bad('C27', 'densenumfeature.go', 'func (f *DenseNumFeature) Mode(cases *[]int) (m float64) {', 'func (f *DenseNumFeature) MeanOfCounts(cases map[int]float64) (m float64) {\n\tfor _, v := range cases {\n\t\tm += v\n\t}\n\treturn\n}\nfunc (f *DenseNumFeature) Mode(cases *[]int) (m float64) {')
bad('C27', 'catmap.go', 'func (cm *CatMap) NCats()', 'func (cm *CatMap) First() string {\n\tfor k := range cm.Map {\n\t\treturn k\n\t}\n\treturn ""\n}\nfunc (cm *CatMap) NCats()')
bad('C27', 'densecatfeature.go', 'func (f *DenseCatFeature) Mode(cases *[]int) (m string) {', 'func (f *DenseCatFeature) renumber() {\n\tn := 0\n\tfor k := range f.Map {\n\t\tf.Map[k] = n\n\t\tn++\n\t}\n}\nfunc (f *DenseCatFeature) Mode(cases *[]int) (m string) {')
quiet('C27', 'utils.go', '\tsort.Ints(rows)\n', '\tsort.Slice(rows, func(a, b int) bool { return rows[a] < rows[b] })\n')
quiet('C27', 'utils.go', '\tsort.Ints(rows)\n', '\tsort.Sort(sort.IntSlice(rows))\n')
quiet('C27', 'utils.go', '\trows := make([]int, 0, len(sc.Map))\n\tfor i := range sc.Map {\n\t\trows = append(rows, i)\n\t}\n\tsort.Ints(rows)\n', '\trows := rowsOf(sc.Map)\n', ('', 'func ParseFloat(', 'func rowsOf(m map[int]map[int]int) []int {\n\tvar rows []int\n\tfor i := range m {\n\t\trows = append(rows, i)\n\t}\n\tsort.Ints(rows)\n\treturn rows\n}\nfunc ParseFloat('))
quiet('C27', 'utils.go', '\trows := make([]int, 0, len(sc.Map))\n\tfor i := range sc.Map {\n\t\trows = append(rows, i)\n\t}\n\tsort.Ints(rows)\n', '\trows := rowsOf(sc.Map)\n\tsort.Ints(rows)\n', ('', 'func ParseFloat(', 'func rowsOf(m map[int]map[int]int) []int {\n\tvar rows []int\n\tfor i := range m {\n\t\trows = append(rows, i)\n\t}\n\treturn rows\n}\nfunc ParseFloat('))
quiet('C27', 'utils.go', '\trows := make([]int, 0, len(sc.Map))\n\tfor i := range sc.Map {\n\t\trows = append(rows, i)\n\t}\n', '\trows := make([]int, len(sc.Map))\n\tn := 0\n\tfor i := range sc.Map {\n\t\trows[n] = i\n\t\tn++\n\t}\n')
quiet('C27', NUMF, 'if v > max || (v == max && k < m) {\n\t\t\tm = k\n\t\t\tmax = v\n\t\t}', 'if v < max {\n\t\t\tcontinue\n\t\t}\n\t\tif v == max && m <= k {\n\t\t\tcontinue\n\t\t}\n\t\tm, max = k, v')
quiet('C27', NUMF, '\tfor k, v := range counts {\n\t\tif v > max || (v == max && k < m) {\n\t\t\tm = k\n\t\t\tmax = v\n\t\t}\n\t}', '\tfor _, v := range counts {\n\t\tif v > max {\n\t\t\tmax = v\n\t\t}\n\t}\n\tfirst := true\n\tfor k, v := range counts {\n\t\tif v == max && (first || k < m) {\n\t\t\tm = k\n\t\t\tfirst = false\n\t\t}\n\t}')
quiet('C27', NUMF, 'if v > max || (v == max && k < m) {', 'if better(v, max, k, m) {', ('', 'func (f *DenseNumFeature) Mode(', 'func better(v, max int, k, m float64) bool {\n\tif v != max {\n\t\treturn v > max\n\t}\n\treturn k < m\n}\nfunc (f *DenseNumFeature) Mode('))
quiet('C27', 'catballotbox.go', '\tfor k, v := range bb.Box[i].Map {', '\tbest := ""\n\tfor k, v := range bb.Box[i].Map {', ('', 'if v > votes || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {\n\t\t\tpredictedn = k\n', 'if v > votes || (v == votes && votes > 0 && bb.Back[k] < best) {\n\t\t\tpredictedn = k\n\t\t\tbest = bb.Back[k]\n'))
quiet('C27', 'catballotbox.go', 'if v > votes || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {\n\t\t\tpredictedn = k\n\t\t\tvotes = v\n', 'switch {\n\t\tcase v > votes, v == votes && votes > 0 && bb.NumToCat(k) < bb.NumToCat(predictedn):\n\t\t\tpredictedn, votes = k, v\n')
quiet('C27', 'forestwriter.go', '\tsort.Strings(keys)\n', '\tsort.Sort(sort.StringSlice(keys))\n')
quiet('C27', 'forestwriter.go', '\tkeys := make([]string, 0)\n\tfor k := range input {\n\t\tkeys = append(keys, k)\n\t}\n\tsort.Strings(keys)\n', '\tkeys := sorted(input)\n', ('', '//DescribeMap', 'func sorted(m map[string]bool) []string {\n\tkeys := make([]string, 0, len(m))\n\tfor k, ok := range m {\n\t\tif ok {\n\t\t\tkeys = append(keys, k)\n\t\t}\n\t}\n\tsort.Strings(keys)\n\treturn keys\n}\n\n//DescribeMap'))
quiet('C27', 'leafcount/leafcount.go', '\t\t\t\t\t\t\t\t\tsort.Strings(keys)\n', '\t\t\t\t\t\t\t\t\tsort.Slice(keys, func(i, j int) bool { return keys[j] > keys[i] })\n')
quiet('C27', 'catmap.go', 'func (cm *CatMap) NCats()', 'func (cm *CatMap) Longest() (n int) {\n\tfor k := range cm.Map {\n\t\tif len(k) > n {\n\t\t\tn = len(k)\n\t\t}\n\t}\n\treturn\n}\nfunc (cm *CatMap) NCats()')
quiet('C27', 'catmap.go', 'func (cm *CatMap) NCats()', 'func (cm *CatMap) Has(s string) bool {\n\tfor k := range cm.Map {\n\t\tif k == s {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\nfunc (cm *CatMap) Total() (n int) {\n\tfor _, i := range cm.Map {\n\t\tn += i\n\t}\n\treturn\n}\nfunc (cm *CatMap) NCats()')

# C28
FMW = '\t\t_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n'
bad('C28', 'featurematrix.go', FMW, '\t\t_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))\n')
bad('C28', 'featurematrix.go', FMW, '\t\tif _, err := fmt.Fprintln(w, strings.Join(vals, "\\t")); err != nil {\n\t\t\tbreak\n\t\t}\n')
bad('C28', 'featurematrix.go', FMW, '\t\tfmt.Fprintln(w, strings.Join(vals, "\\t"))\n')
bad('C28', 'featurematrix.go', '\t_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))\n\tif err != nil {\n\t\treturn\n\t}\n\n\tfor', '\tbuf := bufio.NewWriter(w)\n\t_, err = fmt.Fprintln(buf, strings.Join(vals, "\\t"))\n\tif err != nil {\n\t\treturn\n\t}\n\tdefer buf.Flush()\n\n\tfor', ('', '\t"fmt"\n', '\t"bufio"\n\t"fmt"\n'))
bad('C28', 'libsvm.go', ('\toucsv.Flush()\n\treturn oucsv.Error()', 0), '\tdefer oucsv.Flush()\n\treturn oucsv.Error()')
bad('C28', 'libsvm.go', ('\toucsv.Flush()\n\treturn oucsv.Error()', 1), '\toucsv.Flush()\n\treturn nil')
bad('C28', 'arff.go', '\toucsv.Flush()\n\treturn oucsv.Error()', '\tif len(cases) > 0 {\n\t\toucsv.Flush()\n\t}\n\treturn oucsv.Error()')
bad('C28', 'utils/nfold/main.go', 'if err := data.WriteCases(trainW, trainis); err != nil {\n\t\t\t\tlog.Fatal(err)', 'if err := data.WriteCases(trainW, trainis); err != nil {\n\t\t\t\tlog.Print(err)')
bad('C28', 'utils/nfold/main.go', 'if err := data.WriteCases(trainW, trainis); err != nil {\n\t\t\t\tlog.Fatal(err)', 'if err := data.WriteCases(trainW, trainis); err != nil {\n\t\t\t\tlog.Print(err)\n\t\t\t\tos.Exit(0)')
bad('C28', 'utils/toafm/main.go', '\t\terr = data.WriteCases(outfile, cases)\n\t\tif err != nil {\n\t\t\tlog.Fatal(err)\n\t\t}', '\t\tdata.WriteCases(outfile, cases)')
bad('C28', 'utils/toafm/main.go', 'data.WriteCases(outfile, cases)', 'data.WriteCases(bufio.NewWriter(outfile), cases)', ('', 'import (\n', 'import (\n\t"bufio"\n'))
bad('C28', 'growforest/growforest.go', 'forestwriter = CloudForest.NewForestWriter(forestfile)', 'forestwriter = CloudForest.NewForestWriter(bufio.NewWriter(forestfile))', ('', 'import (\n', 'import (\n\t"bufio"\n'))
bad('C28', 'growforest/growforest.go', 'err = skencoder.Encode(scikikittrees)\n\t\tif err != nil {\n\t\t\tlog.Fatal(err)\n\t\t}', 'skencoder.Encode(scikikittrees)')
bad('C28', 'applyforest/applyforest.go', 'if _, err := fmt.Fprintf(votefile, "\\t%v", total); err != nil {\n\t\t\t\t\tlog.Fatal(err)\n\t\t\t\t}', '_, err = fmt.Fprintf(votefile, "\\t%v", total)')
bad('C28', 'utils.go', 'if _, err := fmt.Fprintf(writer, "%v\\t%v\\t%v\\n", i, j, sc.Map[i][j]); err != nil {\n\t\t\t\tlog.Fatal(err)', 'if _, err := fmt.Fprintf(writer, "%v\\t%v\\t%v\\n", i, j, sc.Map[i][j]); err != nil {\n\t\t\t\treturn')
bad('C28', 'forestwriter.go', 'if _, err := fmt.Fprintln(fw.w, node); err != nil {\n\t\tlog.Fatal(err)', 'if _, err := fmt.Fprintln(fw.w, node); err != nil && n.Splitter != nil {\n\t\tlog.Fatal(err)')
quiet('C28', 'featurematrix.go', FMW, '\t\tif err = writeRow(w, vals); err != nil {\n\t\t\treturn\n\t\t}\n', ('', '//WriteCases', 'func writeRow(w io.Writer, vals []string) error {\n\t_, err := io.WriteString(w, strings.Join(vals, "\\t")+"\\n")\n\treturn err\n}\n\n//WriteCases'))
quiet('C28', 'featurematrix.go', FMW, '\t\tif _, err := fmt.Fprintln(w, strings.Join(vals, "\\t")); err != nil {\n\t\t\treturn fmt.Errorf("feature %v: %v", i, err)\n\t\t}\n')
quiet('C28', 'featurematrix.go', FMW, '\t\tif _, e := fmt.Fprintln(w, strings.Join(vals, "\\t")); e != nil && err == nil {\n\t\t\terr = e\n\t\t}\n')
quiet('C28', 'featurematrix.go', '\t_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))\n\tif err != nil {\n\t\treturn\n\t}\n\n\tfor', '\tbuf := bufio.NewWriter(w)\n\tdefer func() {\n\t\tif e := buf.Flush(); err == nil {\n\t\t\terr = e\n\t\t}\n\t}()\n\t_, err = fmt.Fprintln(buf, strings.Join(vals, "\\t"))\n\tif err != nil {\n\t\treturn\n\t}\n\n\tfor', ('', FMW, FMW.replace('(w,', '(buf,')), ('', '\t"fmt"\n', '\t"bufio"\n\t"fmt"\n'))
quiet('C28', 'featurematrix.go', '\t_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))\n\tif err != nil {\n\t\treturn\n\t}\n\n\tfor', '\tbuf := bufio.NewWriter(w)\n\tfmt.Fprintln(buf, strings.Join(vals, "\\t"))\n\tfor', ('', FMW+'\n\t}\n\n\treturn\n', '\t\tfmt.Fprintln(buf, strings.Join(vals, "\\t"))\n\t}\n\treturn buf.Flush()\n'), ('', '\t"fmt"\n', '\t"bufio"\n\t"fmt"\n'))
quiet('C28', 'libsvm.go', ('\t\terr := oucsv.Write(entries)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n', 0), '\t\toucsv.Write(entries)\n')
quiet('C28', 'libsvm.go', ('\toucsv.Flush()\n\treturn oucsv.Error()', 1), '\toucsv.Flush()\n\tif err := oucsv.Error(); err != nil {\n\t\treturn err\n\t}\n\treturn nil')
quiet('C28', 'utils/nfold/main.go', 'if err := data.WriteCases(trainW, trainis); err != nil {\n\t\t\t\tlog.Fatal(err)\n\t\t\t}', 'must(data.WriteCases(trainW, trainis))', ('', 'func main() {', 'func must(err error) {\n\tif err == nil {\n\t\treturn\n\t}\n\tlog.Print(err)\n\tos.Exit(1)\n}\n\nfunc main() {'))
quiet('C28', 'growforest/growforest.go', 'err = skencoder.Encode(scikikittrees)\n\t\tif err != nil {\n\t\t\tlog.Fatal(err)\n\t\t}', 'if err = skencoder.Encode(scikikittrees); err != nil {\n\t\t\tlog.Fatalf("scikit: %v", err)\n\t\t}')
quiet('C28', 'utils/nfold/main.go', '\t\tif writearff || writeall {\n\t\t\ttrainW, testW := openfiles(trainfn+".arff", testfn+".arff")\n\t\t\tif err := CloudForest.WriteArffCases(data, foldis[i], *targetname, testW); err != nil {\n\t\t\t\tlog.Fatal(err)\n\t\t\t}\n\t\t\tif err := CloudForest.WriteArffCases(data, trainis, *targetname, trainW); err != nil {\n\t\t\t\tlog.Fatal(err)\n\t\t\t}\n\t\t}\n', '\t\tif writearff || writeall {\n\t\t\ttrainW, testW := openfiles(trainfn+".arff", testfn+".arff")\n\t\t\terr := CloudForest.WriteArffCases(data, foldis[i], *targetname, testW)\n\t\t\tif err == nil {\n\t\t\t\terr = CloudForest.WriteArffCases(data, trainis, *targetname, trainW)\n\t\t\t}\n\t\t\tif err != nil {\n\t\t\t\tlog.Fatal(err)\n\t\t\t}\n\t\t}\n')
quiet('C28', 'libsvm.go', ('\toucsv := csv.NewWriter(outfile)\n', 0), '\tbuf := bufio.NewWriter(outfile)\n\tdefer buf.Flush()\n\toucsv := csv.NewWriter(buf)\n')

# C18
FR = 'forestreader.go'
bad('C18', FR, '\t\tif err != nil && err != io.EOF {\n\t\t\treturn\n\t\t}\n\t\tparsed', '\t\tif err != nil && err != io.EOF {\n\t\t\treturn tree, forest, nil\n\t\t}\n\t\tparsed')
bad('C18', FR, '\t\tif err != nil && err != io.EOF {\n\t\t\treturn\n\t\t}\n\t\tparsed', '\t\tparsed')
bad('C18', FR, '\t\tif e != nil {\n\t\t\treturn forest, e\n\t\t}', '\t\tif e != nil {\n\t\t\treturn forest, err\n\t\t}')
bad('C18', FR, '\t\tif e == io.EOF {\n\t\t\treturn forest, nil\n\t\t}\n\t\tif e != nil {', '\t\tif e != nil {\n\t\t\treturn forest, nil\n\t\t}\n\t\tif forest == nil {')
bad('C18', FR, 'tree.Weight, err = strconv.ParseFloat(weights, 64)\n\t\t\t\tif err != nil {\n\t\t\t\t\tlog.Print("Error parsing weight value ", err)\n\t\t\t\t\treturn\n', 'tree.Weight, err = strconv.ParseFloat(weights, 64)\n\t\t\t\tif err != nil {\n\t\t\t\t\tlog.Print("Error parsing weight value ", err)\n\t\t\t\t\ttree.Weight = -1.0\n')
bad('C18', FR, 'splitter.Value, err = strconv.ParseFloat(parsed["LVALUES"], 64)\n\t\t\t\t\tif err != nil {\n\t\t\t\t\t\tlog.Print("Error parsing lvalues value ", err)\n\t\t\t\t\t\treturn\n\t\t\t\t\t}', 'splitter.Value = ParseFloat(parsed["LVALUES"])')
bad('C18', FR, 'splitter.Value, err = strconv.ParseFloat(parsed["LVALUES"], 64)\n\t\t\t\t\tif err != nil {\n\t\t\t\t\t\tlog.Print("Error parsing lvalues value ", err)\n\t\t\t\t\t\treturn\n\t\t\t\t\t}', 'if v, e := strconv.ParseFloat(parsed["LVALUES"], 64); e == nil {\n\t\t\t\t\t\tsplitter.Value = v\n\t\t\t\t\t}')
bad('C18', 'featurematrix.go', '\t\t} else if err != nil {\n\t\t\tlog.Print("Error:", err)\n\t\t\treturn err\n\t\t}', '\t\t} else if err != nil {\n\t\t\tlog.Print("Error:", err)\n\t\t\tcontinue\n\t\t}')
bad('C18', 'featurematrix.go', '\t\t} else if err != nil {\n\t\t\tlog.Print("Error:", err)\n\t\t\treturn err\n\t\t}', '\t\t} else if err != nil {\n\t\t\tlog.Print("Error:", err)\n\t\t\tbreak\n\t\t}')
bad('C18', 'featurematrix.go', '\t\t} else if err != nil {\n\t\t\tlog.Print("Error:", err)\n\t\t\treturn err\n\t\t}', '\t\t} else if err != nil {\n\t\t\tif count > 0 {\n\t\t\t\tlog.Print("Error:", err)\n\t\t\t\tbreak\n\t\t\t}\n\t\t\treturn err\n\t\t}')
bad('C18', 'featurematrix.go', 'if fm.LoadCases(tsv, true) != nil {\n\t\t\t\treturn nil\n\t\t\t}', 'fm.LoadCases(tsv, true)')
bad('C18', 'featurematrix.go', ('\tif fm == nil {\n\t\terr = fmt.Errorf("%v could not be parsed.", filename)\n\t}', 0), '')
bad('C18', 'featurematrix.go', 'case strings.HasSuffix(filename, ".libsvm"):\n\t\tfm = ParseLibSVM(datafile)\n', 'case strings.HasSuffix(filename, ".libsvm"):\n\t\treturn ParseLibSVM(datafile), nil\n')
bad('C18', 'featurematrix.go', '\ttsv.Comma = \'\\t\'\n\theaders', '\ttsv.Comma = \'\\t\'\n\ttsv.FieldsPerRecord = -1\n\theaders')
bad('C18', 'arff.go', 'if fm.LoadCases(csvdata, false) != nil {\n\t\treturn nil\n\t}\n\treturn fm', 'if err := fm.LoadCases(csvdata, false); err != nil && len(fm.CaseLabels) == 0 {\n\t\treturn nil\n\t}\n\treturn fm')
bad('C18', 'arff.go', '\t\tif err != nil {\n\t\t\tlog.Print("Error:", err)\n\t\t\treturn nil\n\t\t}\n\t\tnorm', '\t\tif err != nil {\n\t\t\tlog.Print(err)\n\t\t\tbreak\n\t\t}\n\t\tnorm')
bad('C18', 'libsvm.go', '\t\t\t\tlog.Print("Atoi error: ", err, " Line ", i, " Parsing: ", v)\n\t\t\t\treturn nil\n', '\t\t\t\tlog.Print("Atoi error: ", err, " Line ", i, " Parsing: ", v)\n\t\t\t\tcontinue\n')
bad('C18', 'libsvm.go', 'if err == io.EOF && line == "" {\n\t\t\tbreak\n\t\t} else if err != nil && err != io.EOF {\n\t\t\tlog.Print("Error:", err)\n\t\t\treturn nil\n\t\t}', 'if err != nil && line == "" {\n\t\t\tbreak\n\t\t}')
bad('C18', NUMF, 'if err != nil || math.IsNaN(fv) {\n\t\tf.NumData = append', 'if err == strconv.ErrSyntax || math.IsNaN(fv) {\n\t\tf.NumData = append')
bad('C18', NUMF, 'if err != nil || math.IsNaN(fv) {\n\t\tf.Missing[i] = true\n\t\tf.HasMissing = true\n\t\treturn\n\t}', 'if err != nil && fv == 0 || math.IsNaN(fv) {\n\t\tf.Missing[i] = true\n\t\tf.HasMissing = true\n\t\treturn\n\t}')
bad('C18', 'applyforest/applyforest.go', '\tforest, err := forestreader.ReadForest()\n\tif err != nil {\n\t\tlog.Fatal(err)\n\t}', '\tforest, err := forestreader.ReadForest()\n\tif forest == nil {\n\t\tlog.Fatal(err)\n\t}')
bad('C18', 'leafcount/leafcount.go', '\t\t\t\tforest, err := forestreader.ReadForest()\n\t\t\t\tif err != nil {\n\t\t\t\t\tlog.Fatal(err)\n\t\t\t\t}', '\t\t\t\tforest, err := forestreader.ReadForest()\n\t\t\t\tif err != nil {\n\t\t\t\t\tlog.Print(err)\n\t\t\t\t}')
bad('C18', 'utils/nfold/main.go', '\tdata, err := CloudForest.LoadAFM(*fm)\n\tif err != nil {\n\t\tlog.Fatal(err)\n\t}', '\tdata, _ := CloudForest.LoadAFM(*fm)')
bad('C18', GF, 'err := json.Unmarshal([]byte(*costs), &costmap)\n\t\t\t\tif err != nil {\n\t\t\t\t\tlog.Fatal(err)\n\t\t\t\t}', 'json.Unmarshal([]byte(*costs), &costmap)')
bad('C18', GF, 'testdata, err = CloudForest.LoadAFM(testfm)\n\t\t\tif err != nil {\n\t\t\t\tlog.Fatal(err)\n\t\t\t}', 'testdata, err = CloudForest.LoadAFM(testfm)\n\t\t\tif err != nil {\n\t\t\t\tlog.Print(err)\n\t\t\t\ttestdata = data\n\t\t\t}')
quiet('C18', FR, '\t\tif e == io.EOF {\n\t\t\treturn forest, nil\n\t\t}\n\t\tif e != nil {\n\t\t\treturn forest, e\n\t\t}', '\t\tswitch e {\n\t\tcase nil:\n\t\tcase io.EOF:\n\t\t\treturn forest, nil\n\t\tdefault:\n\t\t\treturn forest, e\n\t\t}')
quiet('C18', FR, '\t\tif e == io.EOF {\n\t\t\treturn forest, nil\n\t\t}\n\t\tif e != nil {\n\t\t\treturn forest, e\n\t\t}', '\t\tif e != nil {\n\t\t\tif e == io.EOF {\n\t\t\t\te = nil\n\t\t\t}\n\t\t\treturn forest, e\n\t\t}')
quiet('C18', FR, 'tree.Weight, err = strconv.ParseFloat(weights, 64)\n\t\t\t\tif err != nil {', 'w, e := parseNum(weights)\n\t\t\t\ttree.Weight, err = w, e\n\t\t\t\tif e != nil {', ('', '/*\nParseRfAcePredictorLine', 'func parseNum(s string) (float64, error) {\n\tv, err := strconv.ParseFloat(s, 64)\n\tif err != nil {\n\t\treturn 0, errors.New("bad number " + s)\n\t}\n\treturn v, nil\n}\n\n/*\nParseRfAcePredictorLine'))
quiet('C18', 'featurematrix.go', 'if fm.LoadCases(tsv, true) != nil {\n\t\t\t\treturn nil\n\t\t\t}\n\t\t\treturn fm', 'if err := fm.LoadCases(tsv, true); err == nil {\n\t\t\t\treturn fm\n\t\t\t}\n\t\t\treturn nil')
quiet('C18', 'featurematrix.go', '\t\tif err == io.EOF {\n\t\t\tbreak\n\t\t} else if err != nil {\n\t\t\tlog.Print("Error:", err)\n\t\t\treturn err\n\t\t}', '\t\tif err != nil {\n\t\t\tif err != io.EOF {\n\t\t\t\tlog.Print("Error:", err)\n\t\t\t\treturn err\n\t\t\t}\n\t\t\treturn nil\n\t\t}')
quiet('C18', 'featurematrix.go', ('\tif fm == nil {\n\t\terr = fmt.Errorf("%v could not be parsed.", filename)\n\t}\n\treturn\n', 0), '\tif fm != nil {\n\t\treturn fm, nil\n\t}\n\treturn nil, fmt.Errorf("%v could not be parsed.", filename)\n')
quiet('C18', 'featurematrix.go', '\tdatafile, err := os.Open(filename)\n\tif err != nil {\n\t\treturn\n\t}\n', '\tdatafile, err := os.Open(filename)\n\tif err != nil {\n\t\treturn nil, fmt.Errorf("%v could not be opened: %v", filename, err)\n\t}\n\tdefer datafile.Close()\n', ('', '\tdatafile.Close()\n\tif fm', '\tif fm'))
quiet('C18', NUMF, 'if err != nil || math.IsNaN(fv) {\n\t\tf.Missing[i] = true\n\t\tf.HasMissing = true\n\t\treturn\n\t}\n\tf.NumData[i] = float64(fv)\n\tf.Missing[i] = false', 'known := err == nil && !math.IsNaN(fv)\n\tf.Missing[i] = !known\n\tif known {\n\t\tf.NumData[i] = fv\n\t} else {\n\t\tf.HasMissing = true\n\t}')
quiet('C18', NUMF, 'if err != nil || math.IsNaN(fv) {\n\t\tf.Missing[i] = true\n\t\tf.HasMissing = true\n\t\treturn\n\t}\n\tf.NumData[i] = float64(fv)\n\tf.Missing[i] = false', 'if err != nil || math.IsNaN(fv) {\n\t\tf.PutMissing(i)\n\t} else {\n\t\tf.Put(i, fv)\n\t}')
quiet('C18', 'libsvm.go', 'if err == io.EOF && line == "" {\n\t\t\tbreak\n\t\t} else if err != nil && err != io.EOF {\n\t\t\tlog.Print("Error:", err)\n\t\t\treturn nil\n\t\t}', 'if err != nil {\n\t\t\tif err != io.EOF {\n\t\t\t\treturn nil\n\t\t\t}\n\t\t\tif len(line) == 0 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}')
quiet('C18', 'applyforest/applyforest.go', '\tforest, err := forestreader.ReadForest()\n\tif err != nil {\n\t\tlog.Fatal(err)\n\t}', '\tforest := load(forestreader)', ('', 'func main() {', 'func load(r *CloudForest.ForestReader) *CloudForest.Forest {\n\tf, err := r.ReadForest()\n\tif err != nil {\n\t\tlog.Fatal(err)\n\t}\n\treturn f\n}\n\nfunc main() {'))
quiet('C18', GF, 'err := json.Unmarshal([]byte(*costs), &costmap)\n\t\t\t\tif err != nil {\n\t\t\t\t\tlog.Fatal(err)\n\t\t\t\t}', 'if err := json.Unmarshal([]byte(*costs), &costmap); err != nil {\n\t\t\t\t\tlog.Fatalf("cost: %v", err)\n\t\t\t\t}')
quiet('C18', 'utils/nfold/main.go', 'func main() {', 'func lines(f *os.File) (out []string, err error) {\n\ts := bufio.NewScanner(f)\n\tfor s.Scan() {\n\t\tout = append(out, s.Text())\n\t}\n\treturn out, s.Err()\n}\n\nfunc main() {', ('', 'import (\n', 'import (\n\t"bufio"\n'))
bad('C18', 'utils/nfold/main.go', 'func main() {', 'func Lines(f *os.File) (out []string, err error) {\n\ts := bufio.NewScanner(f)\n\tfor s.Scan() {\n\t\tout = append(out, s.Text())\n\t}\n\tif s.Err() != nil {\n\t\tout = nil\n\t}\n\treturn out, nil\n}\n\nfunc main() {', ('', 'import (\n', 'import (\n\t"bufio"\n'))

# C19
bad('C19', FR, 'if err != nil && err != io.EOF {\n\t\t\treturn\n\t\t}\n\t\tparsed', 'if err != nil {\n\t\t\treturn\n\t\t}\n\t\tparsed')
bad('C19', FR, 'if err != nil && err != io.EOF {\n\t\t\treturn\n\t\t}\n\t\tparsed', 'if err != nil {\n\t\t\tif err == io.EOF && !strings.HasPrefix(line, "NODE") {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif err != io.EOF {\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n\t\tparsed')
bad('C19', 'libsvm.go', 'if err == io.EOF && line == "" {\n\t\t\tbreak', 'if err == io.EOF {\n\t\t\tbreak')
bad('C19', 'libsvm.go', 'if err == io.EOF && line == "" {\n\t\t\tbreak', 'if err == io.EOF && len(line) < 3 {\n\t\t\tbreak')
bad('C19', 'arff.go', '\t\tif err != nil {\n\t\t\tlog.Print("Error:", err)\n\t\t\treturn nil\n\t\t}\n\t\tnorm', '\t\tif err == io.EOF {\n\t\t\treturn &FeatureMatrix{data, lookup, nil}\n\t\t}\n\t\tif err != nil {\n\t\t\tlog.Print("Error:", err)\n\t\t\treturn nil\n\t\t}\n\t\tnorm')
quiet('C19', 'libsvm.go', 'if err == io.EOF && line == "" {\n\t\t\tbreak\n\t\t} else if err != nil && err != io.EOF {\n\t\t\tlog.Print("Error:", err)\n\t\t\treturn nil\n\t\t}', 'if err != nil {\n\t\t\tif err != io.EOF {\n\t\t\t\treturn nil\n\t\t\t}\n\t\t\tif len(line) == 0 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}')
quiet('C19', FR, 'if err != nil && err != io.EOF {\n\t\t\treturn\n\t\t}\n\t\tparsed', 'if err == io.EOF {\n\t\t\terr = nil\n\t\t}\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\t\tparsed')
quiet('C19', FR, 'line, err = fr.br.ReadString(\'\\n\')', 'line, err = fr.next()', ('', '/*\nParseRfAcePredictorLine', 'func (fr *ForestReader) next() (string, error) {\n\tline, err := fr.br.ReadString(\'\\n\')\n\tif err == io.EOF {\n\t\terr = nil\n\t}\n\treturn line, err\n}\n\n/*\nParseRfAcePredictorLine'))
# ---- C16
bad('C16', 'forestwriter.go', 'if weight >= 0.0 {', 'if weight > 0.0 {')
bad('C16', 'forestwriter.go', '",WEIGHT=%v", weight)', '",WEIGHT=%.4g", weight)')
bad('C16', 'forestwriter.go', 'if intercept != 0.0 {', 'if intercept > 0.0 {')
bad('C16', 'forestwriter.go', '",INTERCEPT=%v", intercept)', '",INTERCEPT=%.6f", intercept)')
bad('C16', 'forestwriter.go', 'TREE=%v,TARGET=\\"%v\\"%v\\n", ntree, target, weightterm', 'TREE=%v,TARGET=%.20v%v\\n", ntree, target, weightterm')
bad('C16', 'forestwriter.go', 'fw.WriteTree(tree, i)', 'if tree.Weight != 0 {\n\t\t\tfw.WriteTree(tree, i)\n\t\t}')
bad('C16', 'forestwriter.go', 'for i, tree := range forest.Trees {\n\t\tfw.WriteTree(tree, i)', 'for i := range forest.Trees {\n\t\tfw.WriteTree(forest.Trees[len(forest.Trees)-1-i], i)')
bad('C16', 'forestwriter.go', 'forest.Target, forest.Intercept)', 'forest.Target, 0)')
bad('C16', 'forestwriter.go', 'tree.Target, tree.Weight)', 'tree.Target, -1)')
bad('C16', 'forestwriter.go', 'n.Splitter != nil && n.Missing != nil', 'n.Splitter != nil && n.Splitter.Numerical && n.Missing != nil')
bad('C16', 'forestwriter.go', 'fw.WriteNodeAndChildren(n.Right, path+"R")', 'fw.WriteNodeAndChildren(n.Right, path+"L")')
bad('C16', 'forestwriter.go', 'n.Splitter != nil && n.Left != nil {\n\t\tfw.WriteNodeAndChildren(n.Left, path+"L")', 'n.Splitter != nil && n.Left != nil {\n\t\tfw.WriteNodeAndChildren(n.Left, "L"+path)')
bad('C16', 'forestwriter.go', '\tfw.WriteNode(n, path)\n\tif n.Splitter != nil && n.Left', '\tdefer fw.WriteNode(n, path)\n\tif n.Splitter != nil && n.Left')
bad('C16', 'forestwriter.go', 'if n.Pred != "" {', 'if n.Pred != "" && n.Splitter == nil {')
bad('C16', 'forestwriter.go', 'LVALUES=%v,RVALUES=%v", n.Splitter.Value, n.', 'LVALUES=%f,RVALUES=%f", n.Splitter.Value, n.')
bad('C16', 'forestwriter.go', 'LVALUES=%v,RVALUES=%v", n.Splitter.Value, n.', 'LVALUES=%v,RVALUES=%v", float32(n.Splitter.Value), n.')
bad('C16', 'forestwriter.go', 'keys = append(keys, k)', 'if k != "" {\n\t\t\tkeys = append(keys, k)\n\t\t}')
bad('C16', 'forestwriter.go', 'keys = append(keys, k)', 'keys = append(keys, strings.ToLower(k))')
bad('C16', 'forestwriter.go', 'strings.Join(keys, ":")', 'strings.Join(keys[:len(keys)-1], ":")')
bad('C16', 'forestwriter.go', 'strings.Join(keys, ":")', 'strings.Join(keys, ";")')
bad('C16', 'forestwriter.go', 'keys = append(keys, k)\n', 'keys = append(keys, k)\n\t\tif len(keys) == 30 {\n\t\t\tbreak\n\t\t}\n')
bad('C16', 'forestwriter.go', 'sort.Strings(keys)', 'sort.Strings(keys)\n\tkeys[0] = strings.TrimSpace(keys[0])')
bad('C16', FR, 'tree.Weight = -1.0', 'tree.Weight = 0.0')
bad('C16', FR, 'tree.Target = parsed["TARGET"]', 'if forest != nil {\n\t\t\t\ttree.Target = forest.Target\n\t\t\t}')
bad('C16', FR, 'forest.Target = parsed["TARGET"]', 'forest.Target = strings.ToUpper(parsed["TARGET"])')
bad('C16', FR, 'i, ok := parsed["INTERCEPT"]', 'i, ok := parsed["INTERCEP"]')
bad('C16', FR, 'if ok {\n\t\t\t\tforest.Intercept', "if ok && i[0] != '-' {\n\t\t\t\tforest.Intercept")
bad('C16', FR, 'ParseFloat(weights, 64)', 'ParseFloat(weights, 32)')
bad('C16', FR, 'splitter.Left[f] = true', 'splitter.Left[strings.TrimSpace(f)] = true')
bad('C16', FR, 'splitter.Left[f] = true', 'splitter.Left[f] = len(f) > 0')
bad('C16', FR, 'splitter.Numerical = true\n', 'splitter.Numerical = false\n')
bad('C16', FR, 'tree.AddNode(parsed["NODE"], pred, splitter)', 'if pred != "" || splitter != nil {\n\t\t\t\ttree.AddNode(parsed["NODE"], pred, splitter)\n\t\t\t}')
bad('C16', FR, 'pred = filepred', 'if splitter == nil && parsed["SPLITTER"] == "" {\n\t\t\t\t\tpred = filepred\n\t\t\t\t}')
bad('C16', FR, 'splitter.Feature = parsed["SPLITTER"]', 'splitter.Feature = parsed["SPLITTERTYPE"]')
bad('C16', FR, "(intree && (peek[0] == 'T' || peek[0] == 'F'))", "(intree && (peek[0] == 'T'))")
bad('C16', FR, 'forest.Trees = append(forest.Trees, t)', 'if len(t.Target) > 0 {\n\t\t\t\tforest.Trees = append(forest.Trees, t)\n\t\t\t}')
bad('C16', FR, 'forest.Trees = append(forest.Trees, t)', 'forest.Trees = append([]*Tree{t}, forest.Trees...)')
quiet('C16', FR, "if peek[0] == 'F' && forest != nil {\n\t\t\treturn", "if peek[0] == 'F' && forest != nil && len(forest.Trees) > 0 {\n\t\t\treturn")
bad('C16', FR, 'if forest == nil && f != nil {', 'if f != nil {', ('', 'if forest != nil && f != nil {\n\t\t\tif e == io.EOF {\n\t\t\t\te = nil\n\t\t\t}\n\t\t\treturn forest, e\n\t\t}\n', ''))
bad('C16', 'tree.go', 'case "M":\n\t\t\t\tif loc.Missing == nil {\n\t\t\t\t\tloc.Missing = n\n\t\t\t\t}\n\t\t\t\tloc = loc.Missing', 'case "M":\n\t\t\t\tif loc.Missing == nil {\n\t\t\t\t\tloc.Missing = n\n\t\t\t\t}\n\t\t\t\tloc = loc.Left')
bad('C16', 'tree.go', 'if loc.Right == nil {\n\t\t\t\t\tloc.Right = n', 'if loc.Right == nil && loc.Left != nil {\n\t\t\t\t\tloc.Right = n')
bad('C16', 'tree.go', 'if loc.Left == nil {\n\t\t\t\t\tloc.Left = n', 'if loc.Left == nil || i == len(path)-2 {\n\t\t\t\t\tloc.Left = n')
bad('C16', 'tree.go', 'for i := 0; i < len(path); i++ {\n\t\t\tswitch path', 'for i := 0; i < len(path) && i < 32; i++ {\n\t\t\tswitch path')
bad('C16', 'tree.go', '\tn.Pred = pred\n\tn.Splitter = splitter', '\tif splitter == nil {\n\t\tn.Pred = pred\n\t}\n\tn.Splitter = splitter')
quiet('C16', 'forestwriter.go', 'if weight >= 0.0 {', 'if !(weight < 0) {')
quiet('C16', 'forestwriter.go', 'fmt.Sprintf(",WEIGHT=%v", weight)', '",WEIGHT=" + strconv.FormatFloat(weight, \'g\', -1, 64)', ('', '"strings"\n', '"strconv"\n\t"strings"\n'))
quiet('C16', 'forestwriter.go', '",INTERCEPT=%v", intercept)', '",INTERCEPT=%g", intercept)')
quiet('C16', 'forestwriter.go', 'if intercept != 0.0 {', '{')
quiet('C16', 'forestwriter.go', 'for i, tree := range forest.Trees {\n\t\tfw.WriteTree(tree, i)', 'for i := 0; i < len(forest.Trees); i++ {\n\t\ttree := forest.Trees[i]\n\t\tfw.WriteTree(tree, i)')
quiet('C16', 'forestwriter.go', '\tif n.Splitter != nil && n.Left != nil {\n\t\tfw.WriteNodeAndChildren(n.Left, path+"L")\n\t}\n\tif n.Splitter != nil && n.Right != nil {\n\t\tfw.WriteNodeAndChildren(n.Right, path+"R")\n\t}\n\tif n.Splitter != nil && n.Missing != nil {\n\t\tfw.WriteNodeAndChildren(n.Missing, path+"M")\n\t}\n', '\tif n.Splitter == nil {\n\t\treturn\n\t}\n\tfw.child(n.Left, path+"L")\n\tfw.child(n.Right, path+"R")\n\tfw.child(n.Missing, path+"M")\n', ('', '//WriteNode writes a single', 'func (fw *ForestWriter) child(n *Node, path string) {\n\tif n == nil {\n\t\treturn\n\t}\n\tfw.WriteNodeAndChildren(n, path)\n}\n\n//WriteNode writes a single'))
quiet('C16', 'forestwriter.go', '\t\tswitch n.Splitter.Numerical {\n\t\tcase true:\n\t\t\tnode += fmt.Sprintf(",SPLITTERTYPE=NUMERICAL,LVALUES=%v,RVALUES=%v", n.Splitter.Value, n.Splitter.Value)\n\t\tcase false:\n\t\t\tleft', '\t\tif s := n.Splitter; s.Numerical {\n\t\t\tnode += fmt.Sprintf(",SPLITTERTYPE=NUMERICAL,LVALUES=%v,RVALUES=%v", s.Value, s.Value)\n\t\t} else {\n\t\t\tleft')
quiet('C16', 'forestwriter.go', '\tif _, err := fmt.Fprintln(fw.w, node); err != nil {\n\t\tlog.Fatal(err)\n\t}', '\tfw.line(node)', ('', '//DescribeMap', 'func (fw *ForestWriter) line(s string) {\n\tif _, err := io.WriteString(fw.w, s+"\\n"); err != nil {\n\t\tlog.Fatal(err)\n\t}\n}\n\n//DescribeMap'))
quiet('C16', 'forestwriter.go', '\tif n.Splitter != nil {\n\t\tnode += fmt', '\tif n.Splitter == nil {\n\t\tif _, err := fmt.Fprintln(fw.w, node); err != nil {\n\t\t\tlog.Fatal(err)\n\t\t}\n\t\treturn\n\t}\n\t{\n\t\tnode += fmt')
quiet('C16', 'forestwriter.go', 'keys := make([]string, 0)\n', 'keys := make([]string, 0, len(input))\n')
quiet('C16', 'forestwriter.go', 'return "\\"" + strings.Join(keys, ":") + "\\""', 'return fmt.Sprintf("\\"%s\\"", strings.Join(keys, ":"))')
quiet('C16', FR, 'tree.Weight = -1.0\n\t\t\t}', 'tree.Weight = -1.0\n\t\t\t}\n\t\t\t_ = ok')
quiet('C16', FR, '\t\t\tweights, ok := parsed["WEIGHT"]\n\t\t\tif ok {\n\t\t\t\ttree.Weight, err = strconv.ParseFloat(weights, 64)\n\t\t\t\tif err != nil {\n\t\t\t\t\tlog.Print("Error parsing weight value ", err)\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t} else {\n\t\t\t\ttree.Weight = -1.0\n\t\t\t}\n', '\t\t\ttree.Weight = -1.0\n\t\t\tif weights, ok := parsed["WEIGHT"]; ok {\n\t\t\t\ttree.Weight, err = strconv.ParseFloat(weights, 64)\n\t\t\t\tif err != nil {\n\t\t\t\t\tlog.Print("Error parsing weight value ", err)\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t}\n')
quiet('C16', FR, '\t\t\tpred := ""\n\t\t\tif filepred, ok := parsed["PRED"]; ok {\n\t\t\t\tpred = filepred\n\t\t\t}\n', '\t\t\tpred := parsed["PRED"]\n')
quiet('C16', FR, '\t\t\t\tswitch stype {\n\t\t\t\tcase "CATEGORICAL":\n\t\t\t\t\tsplitter.Numerical = false\n', '\t\t\t\tsplitter.Numerical = stype == "NUMERICAL"\n\t\t\t\tswitch stype {\n\t\t\t\tcase "CATEGORICAL":\n', ('', '\t\t\t\tcase "NUMERICAL":\n\t\t\t\t\tsplitter.Numerical = true\n', '\t\t\t\tcase "NUMERICAL":\n'))
quiet('C16', FR, '\t\t\tvar splitter *Splitter\n\n\t\t\tpred := ""\n\t\t\tif filepred, ok := parsed["PRED"]; ok {\n\t\t\t\tpred = filepred\n\t\t\t}\n\n\t\t\tif stype, ok := parsed["SPLITTERTYPE"]; ok {\n\t\t\t\tsplitter = new(Splitter)\n\t\t\t\tsplitter.Feature = parsed["SPLITTER"]\n\t\t\t\tswitch stype {\n\t\t\t\tcase "CATEGORICAL":\n\t\t\t\t\tsplitter.Numerical = false\n\n\t\t\t\t\tsplitter.Left = make(map[string]bool)\n\t\t\t\t\tfor _, f := range strings.Split(parsed["LVALUES"], ":") {\n\t\t\t\t\t\tsplitter.Left[f] = true\n\t\t\t\t\t}\n\n\t\t\t\tcase "NUMERICAL":\n\t\t\t\t\tsplitter.Numerical = true\n\t\t\t\t\tsplitter.Value, err = strconv.ParseFloat(parsed["LVALUES"], 64)\n\t\t\t\t\tif err != nil {\n\t\t\t\t\t\tlog.Print("Error parsing lvalues value ", err)\n\t\t\t\t\t\treturn\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n', '\t\t\tpred := ""\n\t\t\tif filepred, ok := parsed["PRED"]; ok {\n\t\t\t\tpred = filepred\n\t\t\t}\n\n\t\t\tvar splitter *Splitter\n\t\t\tsplitter, err = parseSplitter(parsed)\n\t\t\tif err != nil {\n\t\t\t\treturn\n\t\t\t}\n', ('', '/*\nParseRfAcePredictorLine', 'func parseSplitter(parsed map[string]string) (*Splitter, error) {\n\tstype, ok := parsed["SPLITTERTYPE"]\n\tif !ok {\n\t\treturn nil, nil\n\t}\n\tsplitter := &Splitter{Feature: parsed["SPLITTER"]}\n\tswitch stype {\n\tcase "CATEGORICAL":\n\t\tsplitter.Left = make(map[string]bool)\n\t\tfor _, f := range strings.Split(parsed["LVALUES"], ":") {\n\t\t\tsplitter.Left[f] = true\n\t\t}\n\tcase "NUMERICAL":\n\t\tsplitter.Numerical = true\n\t\tv, err := strconv.ParseFloat(parsed["LVALUES"], 64)\n\t\tif err != nil {\n\t\t\tlog.Print("Error parsing lvalues value ", err)\n\t\t\treturn nil, err\n\t\t}\n\t\tsplitter.Value = v\n\t}\n\treturn splitter, nil\n}\n\n/*\nParseRfAcePredictorLine'))
quiet('C16', FR, '\t\tcase strings.HasPrefix(line, "NODE"):\n\t\t\tif intree == false {', '\t\tcase strings.HasPrefix(line, "NODE"):\n\t\t\tif tree == nil {')
quiet('C16', FR, 'forest = f\n\t\t}\n\t\tif t != nil {\n\t\t\tif forest == nil {\n\t\t\t\tforest = new(Forest)\n\t\t\t\tforest.Target = t.Target\n\t\t\t}', 'forest = f\n\t\t}\n\t\tif t != nil {\n\t\t\tif forest == nil {\n\t\t\t\tforest = &Forest{Target: t.Target}\n\t\t\t}')
quiet('C16', 'tree.go', '\t} else {\n\t\tloc := t.Root\n\t\tfor i', '\t\treturn\n\t}\n\t{\n\t\tloc := t.Root\n\t\tfor i')
quiet('C16', 'tree.go', 'for i := 0; i < len(path); i++ {\n\t\t\tswitch path[i : i+1] {', 'for _, c := range path {\n\t\t\tswitch string(c) {')
quiet('C16', 'tree.go', 'for i := 0; i < len(path); i++ {\n\t\t\tswitch path[i : i+1] {\n\t\t\tcase "L":', "for i := range path {\n\t\t\tswitch path[i] {\n\t\t\tcase 'L':", ('', 'case "R":', "case 'R':"), ('', 'case "M":', "case 'M':"))
quiet('C16', 'tree.go', '\tn := new(Node)\n\tn.Pred = pred\n\tn.Splitter = splitter\n', '\tn := &Node{Pred: pred, Splitter: splitter}\n')
quiet('C16', 'tree.go', '\t\t\tcase "L":\n\t\t\t\tif loc.Left == nil {\n\t\t\t\t\tloc.Left = n\n\t\t\t\t}\n\t\t\t\tloc = loc.Left\n\t\t\tcase "R":\n\t\t\t\tif loc.Right == nil {\n\t\t\t\t\tloc.Right = n\n\t\t\t\t}\n\t\t\t\tloc = loc.Right\n\n\t\t\tcase "M":\n\t\t\t\tif loc.Missing == nil {\n\t\t\t\t\tloc.Missing = n\n\t\t\t\t}\n\t\t\t\tloc = loc.Missing\n\t\t\t}\n', '\t\t\tcase "L":\n\t\t\t\tloc = step(&loc.Left, n)\n\t\t\tcase "R":\n\t\t\t\tloc = step(&loc.Right, n)\n\t\t\tcase "M":\n\t\t\t\tloc = step(&loc.Missing, n)\n\t\t\t}\n', ('', '//StripCodes', 'func step(at **Node, n *Node) *Node {\n\tif *at == nil {\n\t\t*at = n\n\t}\n\treturn *at\n}\n\n//StripCodes'))
# ---- C29
bad('C29', 'sampeling.go', '\ts.Cases = dropEmpty(s.Cases)\n\treturn', '\treturn')
bad('C29', 'sampeling.go', '\t\tif len(cases) > 0 {\n\t\t\tfilled', '\t\tif len(cases) > 1 {\n\t\t\tfilled')
bad('C29', 'sampeling.go', '\t\tif len(cases) > 0 {\n\t\t\tfilled', '\t\tif len(cases) >= 0 {\n\t\t\tfilled')
bad('C29', 'sampeling.go', '\tfor i := range s.Samplers {\n\t\ts.Samplers[i] = dropEmpty(s.Samplers[i])\n\t}', '\ts.Samplers[0] = dropEmpty(s.Samplers[0])')
bad('C29', 'sampeling.go', '\tfor i := range s.Samplers {\n\t\ts', '\tfor i := 1; i < len(s.Samplers); i++ {\n\t\ts')
bad('C29', 'sampeling.go', '\tfor i, v := range catf.CatData {\n\t\tif !catf.IsMissing(i) {', '\tfor i, v := range catf.CatData {\n\t\tif i%3 == 2 && v == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tif !catf.IsMissing(i) {')
bad('C29', 'sampeling.go', '\tfor i, v := range catf.CatData {\n', '\tfor i, v := range catf.CatData[:len(catf.CatData)-1] {\n')
bad('C29', 'sampeling.go', '\t\t\ts.Cases[v] = append(s.Cases[v], i)', '\t\t\ts.Cases[v] = append(s.Cases[v], i)\n\t\t\tif v == 1 {\n\t\t\t\ts.Cases[v] = append(s.Cases[v], i)\n\t\t\t}')
bad('C29', 'sampeling.go', '\t\t\ts.Cases[v] = append(s.Cases[v], i)', '\t\t\ts.Cases[v] = append(s.Cases[0], i)')
bad('C29', 'sampeling.go', 'c = rand.Intn(nCases)\n\t\t(*samples) = append((*samples), s.Cases', 'c = i % nCases\n\t\t(*samples) = append((*samples), s.Cases')
bad('C29', 'sampeling.go', 'for i := 0; i < n; i++ {\n\t\tc = rand.Intn(nCases)', 'for i := 0; i <= n; i++ {\n\t\tc = rand.Intn(nCases)')
bad('C29', 'sampeling.go', 'c := 0\n\tfor i := 0; i < n; i++ {\n\t\tc = rand.Intn(nCases)', 'c := rand.Intn(nCases)\n\tfor i := 0; i < n; i++ {')
bad('C29', 'sampeling.go', 's.Cases[c][rand.Intn(len(s.Cases[c]))]', 's.Cases[c][rand.Intn(len(s.Cases[0]))]')
bad('C29', 'sampeling.go', 'nCases := len(s.Cases)\n', 'nCases := len(s.Cases)\n\tif nCases > 2 {\n\t\tnCases = 2\n\t}\n')
bad('C29', 'sampeling.go', '\t\t\ts.Total += 1\n', '')
bad('C29', 'sampeling.go', '\t\t\ts.Counts[balanceCat] += 1', '\t\t\ts.Counts[targetCat] += 1')
bad('C29', 'sampeling.go', '\t\t\ts.Total += 1\n\t\t\tbalanceCat', '\t\t\tbalanceCat', ('', '\t\tif !target.IsMissing(i) && !balanceby.IsMissing(i) {', '\t\ts.Total += 1\n\t\tif !target.IsMissing(i) && !balanceby.IsMissing(i) {'))
bad('C29', 'sampeling.go', 'if b < 0 || j', 'if b <= 0 || j')
bad('C29', 'sampeling.go', 'if b < 0 || j == (len(s.Counts)-1) {', 'if b < 0 || j == (len(s.Counts)-2) {')
bad('C29', 'sampeling.go', 'b = rand.Intn(s.Total)', 'b = rand.Intn(s.Total - 1)')
bad('C29', 'sampeling.go', 'b = rand.Intn(s.Total)', 'b = rand.Intn(len(s.Counts))')
bad('C29', 'sampeling.go', 'b = b - v\n', 'b = b - v/2\n')
bad('C29', 'sampeling.go', 'nCases := len(s.Samplers[b])', 'nCases := 1')
bad('C29', 'sampeling.go', 'for i := 0; i < nSamples; i++ {', 'for i := 1; i < nSamples; i++ {')
bad('C29', 'sampeling.go', 'cases = append(cases, rand.Intn(totalCases))', 'cases = append(cases, rand.Intn(totalCases-1))')
bad('C29', 'sampeling.go', 'cases = append(cases, rand.Intn(totalCases))', 'if r := rand.Intn(totalCases); r > 0 {\n\t\t\tcases = append(cases, r)\n\t\t}')
bad('C29', 'sampeling.go', 'cases = make([]int, 0, nSamples)', 'cases = make([]int, 1, nSamples+1)')
bad('C29', GF, 'for j := 0; len(cases) < nSamples; j++ {', 'for j := 0; j < nSamples; j++ {')
bad('C29', GF, 'for j := 0; len(cases) < nSamples; j++ {', 'for j := 0; len(cases) < nNonMissing; j++ {')
bad('C29', GF, 'for j := 0; len(cases) < nSamples; j++ {', 'for j := 0; len(cases) < nSamples && j < 10*nSamples; j++ {')
bad('C29', GF, 'bSampler.Sample(&cases, nSamples)', 'bSampler.Sample(&cases, nNonMissing)')
bad('C29', GF, 'CloudForest.SampleFirstN(&cases, &cases, nSamples, 0)', 'CloudForest.SampleFirstN(&cases, &cases, nCases, 0)')
bad('C29', GF, '\tif nSamples <= 0 {\n', '\tif nSamples <= 10 {\n')
bad('C29', GF, '\t\t\t\t\t\tcases = cases[0:0]\n\n\t\t\t\t\t\tif balance {', '\t\t\t\t\t\tif balance {')
quiet('C29', 'sampeling.go', '\tfor i, v := range catf.CatData {\n\t\tif !catf.IsMissing(i) {\n\t\t\ts.Cases[v] = append(s.Cases[v], i)\n\t\t}\n\t}', '\tfor i := 0; i < catf.Length(); i++ {\n\t\tif catf.IsMissing(i) {\n\t\t\tcontinue\n\t\t}\n\t\tv := catf.Geti(i)\n\t\ts.Cases[v] = append(s.Cases[v], i)\n\t}')
quiet('C29', 'sampeling.go', '\ts = &BalancedSampler{make([][]int, 0, catf.NCats())}\n\n\tfor i := 0; i < catf.NCats(); i++ {\n\t\ts.Cases = append(s.Cases, make([]int, 0, catf.Length()))\n\t}\n\n\tfor i, v := range catf.CatData {\n\t\tif !catf.IsMissing(i) {\n\t\t\ts.Cases[v] = append(s.Cases[v], i)\n\t\t}\n\t}\n\ts.Cases = dropEmpty(s.Cases)\n\treturn', '\tclasses := make([][]int, catf.NCats())\n\tfor i, v := range catf.CatData {\n\t\tif !catf.IsMissing(i) {\n\t\t\tclasses[v] = append(classes[v], i)\n\t\t}\n\t}\n\treturn &BalancedSampler{dropEmpty(classes)}')
quiet('C29', 'sampeling.go', '\ts.Cases = dropEmpty(s.Cases)\n\treturn', '\tfilled := make([][]int, 0, len(s.Cases))\n\tfor i := 0; i < len(s.Cases); i++ {\n\t\tif len(s.Cases[i]) == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tfilled = append(filled, s.Cases[i])\n\t}\n\ts.Cases = filled\n\treturn')
quiet('C29', 'sampeling.go', '\t\tc = rand.Intn(nCases)\n\t\t(*samples) = append((*samples), s.Cases[c][rand.Intn(len(s.Cases[c]))])', '\t\t(*samples) = append((*samples), drawFrom(s.Cases))', ('', '//SecondaryBalancedSampler roughly', 'func drawFrom(classes [][]int) int {\n\tclass := classes[rand.Intn(len(classes))]\n\treturn class[rand.Intn(len(class))]\n}\n\n//SecondaryBalancedSampler roughly'), ('', '\tnCases := len(s.Cases)\n\tc := 0\n', ''))
quiet('C29', 'sampeling.go', '\t(*samples) = (*samples)[0:0]\n\tnCases := len(s.Cases)\n\tc := 0\n\tfor i := 0; i < n; i++ {\n\t\tc = rand.Intn(nCases)\n\t\t(*samples) = append((*samples), s.Cases[c][rand.Intn(len(s.Cases[c]))])\n\t}\n', '\tdrawn := (*samples)[:0]\n\tfor ; n > 0; n-- {\n\t\tclass := s.Cases[rand.Intn(len(s.Cases))]\n\t\tdrawn = append(drawn, class[rand.Intn(len(class))])\n\t}\n\t*samples = drawn\n')
quiet('C29', 'sampeling.go', '\t\tb = rand.Intn(s.Total)\n\t\tfor j, v := range s.Counts {\n\t\t\tb = b - v\n\t\t\tif b < 0 || j == (len(s.Counts)-1) {\n\t\t\t\tb = j\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n', '\t\tb = s.category()\n', ('', 'func (s *SecondaryBalancedSampler) Sample', 'func (s *SecondaryBalancedSampler) category() int {\n\tr := rand.Intn(s.Total)\n\tupto := 0\n\tfor j, v := range s.Counts {\n\t\tupto += v\n\t\tif r < upto {\n\t\t\treturn j\n\t\t}\n\t}\n\treturn len(s.Counts) - 1\n}\n\nfunc (s *SecondaryBalancedSampler) Sample'))
quiet('C29', 'sampeling.go', '\t\tfor j, v := range s.Counts {\n\t\t\tb = b - v\n\t\t\tif b < 0 || j == (len(s.Counts)-1) {\n\t\t\t\tb = j\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\tnCases := len(s.Samplers[b])\n\t\tc = rand.Intn(nCases)\n\t\t(*samples) = append((*samples), s.Samplers[b][c][rand.Intn(len(s.Samplers[b][c]))])', '\t\tj := 0\n\t\tfor ; j < len(s.Counts)-1 && b >= s.Counts[j]; j++ {\n\t\t\tb -= s.Counts[j]\n\t\t}\n\t\tclasses := s.Samplers[j]\n\t\tc = rand.Intn(len(classes))\n\t\t(*samples) = append((*samples), classes[c][rand.Intn(len(classes[c]))])')
quiet('C29', 'sampeling.go', '\t\tif !target.IsMissing(i) && !balanceby.IsMissing(i) {\n\t\t\ts.Total += 1\n', '\t\tif target.IsMissing(i) || balanceby.IsMissing(i) {\n\t\t\tcontinue\n\t\t}\n\t\t{\n\t\t\ts.Total++\n')
quiet('C29', 'sampeling.go', '\tcases = make([]int, 0, nSamples)\n\tfor i := 0; i < nSamples; i++ {', '\tfor i := nSamples; i > 0; i-- {')
quiet('C29', GF, '\t\t\t\t\t\t\tfor j := 0; len(cases) < nSamples; j++ {\n\t\t\t\t\t\t\t\tr', '\t\t\t\t\t\t\tfor len(cases) < nSamples {\n\t\t\t\t\t\t\t\tr')
quiet('C29', GF, '\t\t\t\t\t\t\t\tif !targetf.IsMissing(r) {\n\t\t\t\t\t\t\t\t\tcases = append(cases, r)\n\t\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n\n\t\t\t\t\t}', '\t\t\t\t\t\t\t\tif targetf.IsMissing(r) {\n\t\t\t\t\t\t\t\t\tcontinue\n\t\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t\tcases = append(cases, r)\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n\n\t\t\t\t\t}')
quiet('C29', GF, '\t\t\t\t\t\t\tfor j := 0; len(cases) < nSamples; j++ {\n\t\t\t\t\t\t\t\tr := rand.Intn(nCases)\n\t\t\t\t\t\t\t\tif !targetf.IsMissing(r) {\n\t\t\t\t\t\t\t\t\tcases = append(cases, r)\n\t\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t}\n', '\t\t\t\t\t\t\tfor drawn := 0; drawn < nSamples; {\n\t\t\t\t\t\t\t\tr := rand.Intn(nCases)\n\t\t\t\t\t\t\t\tif !targetf.IsMissing(r) {\n\t\t\t\t\t\t\t\t\tcases = append(cases, r)\n\t\t\t\t\t\t\t\t\tdrawn++\n\t\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t}\n')
bad('C31','utils/nfold/main.go','\t\t\tif i != j {\n\t\t\t\ttrainis = append(trainis, foldis[j]...)\n\t\t\t}','\t\t\tif i != j || j == 0 {\n\t\t\t\ttrainis = append(trainis, foldis[j]...)\n\t\t\t}')
bad('C31','utils/nfold/main.go','\t\t\tif i != j {\n\t\t\t\ttrainis = append(trainis, foldis[j]...)\n\t\t\t}','\t\t\tif i > j {\n\t\t\t\ttrainis = append(trainis, foldis[j]...)\n\t\t\t}')
bad('C31','utils/nfold/main.go','\t\t\tif i != j {\n\t\t\t\ttrainis = append(trainis, foldis[j]...)\n\t\t\t}','\t\t\tif i != j && len(foldis[j]) > 1 {\n\t\t\t\ttrainis = append(trainis, foldis[j]...)\n\t\t\t}')
bad('C31','utils/nfold/main.go','\t\t\tif i != j {\n\t\t\t\ttrainis = append(trainis, foldis[j]...)\n\t\t\t}','\t\t\tif i != j {\n\t\t\t\ttrainis = append(trainis, foldis[i]...)\n\t\t\t}')
bad('C31','utils/nfold/main.go','\t\t\tif i != j {\n\t\t\t\ttrainis = append(trainis, foldis[j]...)\n\t\t\t}','\t\t\ttrainis = append(trainis, foldis[j]...)')
bad('C31','utils/nfold/main.go','\t\ttrainis = trainis[0:0]\n','')
bad('C31','utils/nfold/main.go','\t\ttrainis = trainis[0:0]\n','\t\tif i > 1 {\n\t\t\ttrainis = trainis[0:0]\n\t\t}\n')
bad('C31','utils/nfold/main.go','\t\tfor j := 0; j < folds; j++ {\n\t\t\tif i != j','\t\tfor j := 1; j < folds; j++ {\n\t\t\tif i != j')
bad('C31','utils/nfold/main.go','\t\tfor j := 0; j < folds; j++ {\n\t\t\tif i != j','\t\tfor j := 0; j < folds-1; j++ {\n\t\t\tif i != j')
bad('C31','utils/nfold/main.go','k < (j+1)*foldsize; k++','k < (j+1)*foldsize+1 && k < ncases; k++')
bad('C31','utils/nfold/main.go','k < (j+1)*foldsize; k++','k <= (j+1)*foldsize-2; k++')
bad('C31','utils/nfold/main.go','for k := j * foldsize;','for k := j * (foldsize - 1);')
bad('C31','utils/nfold/main.go','cases[k])','cases[k-k%2])')
bad('C31','utils/nfold/main.go','\t\t\tcases[i] = i\n','\t\t\tcases[i] = i / 2\n')
bad('C31','utils/nfold/main.go','foldis[j], bSampler.Cases[i][k]','foldis[j], bSampler.Cases[0][k]')
bad('C31','utils/nfold/main.go','for k := j * stratFoldSize; k < (j+1)*stratFoldSize; k++','for k := j; k < j+stratFoldSize; k++')
bad('C31','utils/nfold/main.go','stratFoldSize := len(bSampler.Cases[i]) / folds','stratFoldSize := len(bSampler.Cases[0]) / folds')
bad('C31','utils/nfold/main.go','for i := 0; i < len(bSampler.Cases); i++','for i := 1; i < len(bSampler.Cases); i++')
bad('C31','utils/nfold/main.go','\t\tCloudForest.SampleFirstN(&cases, nil, len(cases), 0)\n','')
bad('C31','utils/nfold/main.go','SampleFirstN(&cases, nil, len(cases), 0)','SampleFirstN(&cases, nil, foldsize, 0)')
bad('C31','utils/nfold/main.go','&samples, len(bSampler.Cases[i]), 0)','&samples, 1, 0)')
bad('C31','utils/nfold/main.go','WriteArffCases(data, trainis, *targetname, trainW)','WriteArffCases(data, foldis[i], *targetname, trainW)')
bad('C31','utils/nfold/main.go','WriteArffCases(data, foldis[i], *targetname, testW)','WriteArffCases(data, foldis[0], *targetname, testW)')
bad('C31','utils/nfold/main.go','data.WriteCases(testW, foldis[i])','data.WriteCases(testW, trainis)')
bad('C31','utils/nfold/main.go','testfn := fmt.Sprintf(*test, i)','testfn := fmt.Sprintf(*test, i+1)')
bad('C31','utils/nfold/main.go','openfiles(trainfn+".libsvm", testfn+".libsvm")','openfiles(trainfn+".arff", testfn+".arff")')
bad('C31','utils/nfold/main.go','if writearff || writeall {','if writearff {')
bad('C31','utils/nfold/main.go','if ((!writelibsvm) && (!writearff)) || writeall {','if (!writelibsvm) || writeall {')
bad('C31','utils/nfold/main.go','if ((!writelibsvm) && (!writearff)) || writeall {','if !writelibsvm && !writearff && !writeall {')
bad('C31','utils/nfold/main.go','\tif writelibsvm || writeall {','\tif writelibsvm && !writeall {')
bad('C31','utils/nfold/main.go','\t\tcase *CloudForest.DenseNumFeature:\n\t\t\tunstratified = true\n','\t\tcase *CloudForest.DenseNumFeature:\n\t\t\tunstratified = true\n\t\tcase *CloudForest.DenseCatFeature:\n\t\t\tunstratified = targetf.NCats() > 10\n')
bad('C31','utils/nfold/main.go','\tif unstratified {','\tif unstratified && targetf == nil {')
bad('C31','utils/nfold/main.go','\t\tdata.ImputeMissing()','\t\tdefer data.ImputeMissing()')
bad('C31','utils/nfold/main.go','\t\tdata = data.OneHot()\n','\t\tdata = data.OneHot()\n\t\tnum = false\n')
bad('C31','utils/nfold/main.go','\tif num {','\tif num && !onehot {')
bad('C31','utils/nfold/main.go','\t\tdata = data.OneHot()\n','\t\tdata.OneHot()\n')
bad('C31','utils/nfold/main.go','if !blacklistis[i] && (maxcats','if !blacklistis[i] || (maxcats')
bad('C31','utils/nfold/main.go','f.NCats() <= maxcats','f.NCats() < maxcats')
bad('C31','utils/nfold/main.go','newmap[f.GetName()] = len(newdata)','newmap[f.GetName()] = i')
bad('C31','utils/nfold/main.go','\t\t\tif id[0] == *targetname {\n\t\t\t\tcontinue\n\t\t\t}\n','')
bad('C31','utils/nfold/main.go','\t\t\t\tblacklisted += 1\n\t\t\t\tblacklistis[i] = true','\t\t\t\tblacklisted += 1\n\t\t\t\tblacklistis[blacklisted] = true')
bad('C31','utils/nfold/main.go','\t\tif i != j {\n','\t\tif i != j {\n\t\t\t\tif len(trainis) > foldsize*(folds-1) {\n\t\t\t\t\tbreak\n\t\t\t\t}\n')
bad('C31','utils/nfold/main.go','\t\tfoldis = append(foldis, make([]int, 0, foldsize))','\t\tfoldis = append(foldis, make([]int, 1, foldsize+1))')
bad('C31','utils/nfold/main.go','for i := 0; i < folds; i++ {\n\n\t\ttrainfn','for i := 0; i < folds-1; i++ {\n\n\t\ttrainfn')
quiet('C31','utils/nfold/main.go','\t\t\tif i != j {\n\t\t\t\ttrainis = append(trainis, foldis[j]...)\n\t\t\t}','\t\t\tif i == j {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\ttrainis = append(trainis, foldis[j]...)')
quiet('C31','utils/nfold/main.go','\t\t\tif i != j {\n\t\t\t\ttrainis = append(trainis, foldis[j]...)\n\t\t\t}','\t\t\tif i != j {\n\t\t\t\tfor _, cs := range foldis[j] {\n\t\t\t\t\ttrainis = append(trainis, cs)\n\t\t\t\t}\n\t\t\t}')
quiet('C31','utils/nfold/main.go','\t\t\tif i != j {\n\t\t\t\ttrainis = append(trainis, foldis[j]...)\n\t\t\t}','\t\t\tif j < i || j > i {\n\t\t\t\ttrainis = append(trainis, foldis[j]...)\n\t\t\t}')
quiet('C31','utils/nfold/main.go','\t\tfor j := 0; j < folds; j++ {\n\t\t\tif i != j {\n\t\t\t\ttrainis = append(trainis, foldis[j]...)','\t\tfor j, fold := range foldis {\n\t\t\tif i != j {\n\t\t\t\ttrainis = append(trainis, fold...)')
quiet('C31','utils/nfold/main.go','\t\ttrainis = trainis[0:0]\n','\t\ttrainis = make([]int, 0, foldsize*(folds-1))\n')
quiet('C31','utils/nfold/main.go','\ttrainis := make([]int, 0, foldsize*(folds-1))\n','',('', '\t\ttrainis = trainis[0:0]\n', '\t\ttrainis := []int{}\n'))
quiet('C31','utils/nfold/main.go','\t\t\tfor k := j * foldsize; k < (j+1)*foldsize; k++ {\n\t\t\t\tfoldis[j] = append(foldis[j], cases[k])\n\t\t\t}','\t\t\tfoldis[j] = append(foldis[j], cases[j*foldsize:(j+1)*foldsize]...)')
quiet('C31','utils/nfold/main.go','\t\t\tfor k := j * foldsize; k < (j+1)*foldsize; k++ {\n\t\t\t\tfoldis[j] = append(foldis[j], cases[k])\n\t\t\t}','\t\t\tstart := j * foldsize\n\t\t\tend := start + foldsize\n\t\t\tfor k := start; k < end; k++ {\n\t\t\t\tcs := cases[k]\n\t\t\t\tfoldis[j] = append(foldis[j], cs)\n\t\t\t}')
quiet('C31','utils/nfold/main.go','\t\t\tfor k := j * foldsize; k < (j+1)*foldsize; k++ {\n\t\t\t\tfoldis[j] = append(foldis[j], cases[k])\n\t\t\t}','\t\t\tfoldis[j] = share(foldis[j], cases, j, foldsize)',('', 'func main() {', 'func share(fold, cases []int, j, size int) []int {\n\tfor k := j * size; k < (j+1)*size; k++ {\n\t\tfold = append(fold, cases[k])\n\t}\n\treturn fold\n}\n\nfunc main() {'))
quiet('C31','utils/nfold/main.go','for i := 0; i < len(bSampler.Cases); i++ {','for i := range bSampler.Cases {')
quiet('C31','utils/nfold/main.go','\t\tcases := make([]int, ncases, ncases)\n\t\tfor i := 0; i < ncases; i++ {\n\t\t\tcases[i] = i\n\t\t}','\t\tcases := make([]int, 0, ncases)\n\t\tfor i := 0; i < ncases; i++ {\n\t\t\tcases = append(cases, i)\n\t\t}')
quiet('C31','utils/nfold/main.go','if ((!writelibsvm) && (!writearff)) || writeall {','if !(writelibsvm || writearff) || writeall {')
quiet('C31','utils/nfold/main.go','\t\tif !blacklistis[i] && (maxcats == -1 || f.NCats() <= maxcats) {\n\t\t\tnewmap[f.GetName()] = len(newdata)\n\t\t\tnewdata = append(newdata, f)\n\t\t}','\t\tif blacklistis[i] {\n\t\t\tcontinue\n\t\t}\n\t\tif maxcats != -1 && f.NCats() > maxcats {\n\t\t\tcontinue\n\t\t}\n\t\tnewdata = append(newdata, f)\n\t\tnewmap[f.GetName()] = len(newdata) - 1')
quiet('C31','utils/nfold/main.go','\t\t\tif !blacklistis[i] {\n\t\t\t\tblacklisted += 1\n\t\t\t\tblacklistis[i] = true\n\t\t\t}\n','\t\t\tif blacklistis[i] {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tblacklisted++\n\t\t\tblacklistis[i] = true\n')
quiet('C31','utils/nfold/main.go','\t\t\tif id[0] == *targetname {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\ti, ok := data.Map[id[0]]\n','\t\t\tname := id[0]\n\t\t\tif name == *targetname {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\ti, ok := data.Map[name]\n')
quiet('C31','utils/nfold/main.go','\tif ok {\n\t\ttargetf = data.Data[targeti]\n\n\t\tswitch targetf.(type) {\n\t\tcase *CloudForest.DenseNumFeature:\n\t\t\tunstratified = true\n\t\t}\n\t}','\tif ok {\n\t\ttargetf = data.Data[targeti]\n\t\tif _, cat := targetf.(*CloudForest.DenseCatFeature); !cat {\n\t\t\tunstratified = true\n\t\t}\n\t}')
quiet('C31','utils/nfold/main.go','\t\t\tif err := CloudForest.WriteArffCases(data, foldis[i], *targetname, testW); err != nil {\n\t\t\t\tlog.Fatal(err)\n\t\t\t}\n\t\t\tif err := CloudForest.WriteArffCases(data, trainis, *targetname, trainW); err != nil {\n\t\t\t\tlog.Fatal(err)\n\t\t\t}','\t\t\tif err := CloudForest.WriteArffCases(data, trainis, *targetname, trainW); err != nil {\n\t\t\t\tlog.Fatal(err)\n\t\t\t}\n\t\t\ttestis := foldis[i]\n\t\t\tif err := CloudForest.WriteArffCases(data, testis, *targetname, testW); err != nil {\n\t\t\t\tlog.Fatal(err)\n\t\t\t}')
bad('C31','utils/nfold/main.go','WriteLibSvmCases(data, trainis,','WriteLibSvmCases(data.EncodeToNum(), trainis,')
bad('C31','utils/nfold/main.go','			if id[0] == *targetname {\n				continue\n			}','			if id[0] == *targetname {\n				break\n			}')
bad('C12', 'densecatfeature.go', '\t\te -= float64(i*i) / t\n', '\t\te -= float64(i) / t\n')
bad('C12', 'densecatfeature.go', ('\t\te -= float64(i*i) / t\n', 1), '\t\te -= float64(i) / t\n')
bad('C12', 'densecatfeature.go', '\tt := float64(total * total)\n\tfor _, i := range *counts {\n\t\te -= float64(i*i) / t\n\t}\n\treturn\n}\n', '\tt := float64(total * total)\n\tfor _, i := range (*counts)[1:] {\n\t\te -= float64(i*i) / t\n\t}\n\treturn\n}\n')
bad('C12', 'densecatfeature.go', ('\tfor _, i := range *counts {\n\t\te -= float64(i*i) / t\n', 1), '\tfor k, i := range *counts {\n\t\tif k == 0 {\n\t\t\tcontinue\n\t\t}\n\t\te -= float64(i*i) / t\n')
bad('C12', 'densecatfeature.go', '\ttotal := len(*cases)\n\ttarget.CountPerCat(cases, counts)\n', '\ttotal := len(*cases)\n\tif total > 1 {\n\t\ttarget.CountPerCat(cases, counts)\n\t}\n')
bad('C12', 'densecatfeature.go', '\t\tcounter[i] = 0\n\t}\n\n\tfor _, i = range *cases {', '\t\tcounter[i] = 0\n\t}\n\n\tfor _, i = range (*cases)[1:] {')
bad('C12', 'densecatfeature.go', '\tfor i = range counter {\n\t\tcounter[i] = 0\n\t}\n', '\tfor i = range counter[1:] {\n\t\tcounter[i] = 0\n\t}\n')
bad('C12', 'densecatfeature.go', '\tfor i = range counter {\n\t\tcounter[i] = 0\n\t}\n', '')
bad('C12', 'densecatfeature.go', '\t\tcounter[catdata[i]]++\n', '\t\tif counter[catdata[i]] < 1<<15 {\n\t\t\tcounter[catdata[i]]++\n\t\t}\n')
bad('C12', 'entropytarget.go', ('p = float64(i) / float64(total)', 1), 'p = float64(i) / float64(total+len(*counts))')
bad('C12', 'entropytarget.go', 'if i > 0 {', 'if i > 1 {')
bad('C12', 'entropytarget.go', 'e -= p * math.Log(p)', 'e -= p * math.Log(float64(i))')
bad('C12', 'entropytarget.go', ('\ttarget.CountPerCat(cases, counts)\n', 0), '\tif len(*counts) > 2 {\n\t\ttarget.CountPerCat(cases, counts)\n\t}\n')
bad('C12', 'dentropytarget.go', 'e -= target.Costs[c] * p * math.Log(p)', 'e -= target.Costs[c/2] * p * math.Log(p)')
bad('C12', 'dentropytarget.go', ('e -= target.Costs[c] * p * math.Log(p)', 1), 'e -= (1 + target.Costs[c]) * p * math.Log(p)')
bad('C12', 'wrftarget.go', 'total += float64(v) * w', 'total += float64(v)')
bad('C12', 'wrftarget.go', 'e -= float64(v*v) * w * w', 'e -= float64(v*v) * w')
bad('C12', 'wrftarget.go', '\te /= float64(total * total)\n\te++', '\te /= float64(total)\n\te++')
bad('C12', 'regrettarget.go', 'if cat != mi {', 'if cat == mi {')
bad('C12', 'regrettarget.go', '\t\tif cat != mi {\n', '\t\tt += count\n\t\tif cat != mi {\n')
bad('C12', 'regrettarget.go', ('\t\tcc := float64(count) * target.Costs[cat]\n', 1), '\t\tcc := float64(count)\n')
bad('C12', 'regrettarget.go', ('\t\tif cc > mc {\n\t\t\tmi = cat\n\t\t\tmc = cc', 1), '\t\tif cc > mc {\n\t\t\tmi = cat\n\t\t\tmc = float64(count)')
bad('C12', 'NPtarget.go', '\t\t\ttotalpos += count\n\t\t\tcc /= target.Alpha\n\t\t} else {', '\t\t\ttotalpos += count\n\t\t} else {')
bad('C12', 'NPtarget.go', 'if target.Posi == mi {', 'if target.Posi != mi {')
bad('C12', 'NPtarget.go', 'target.Kappa * math.Max(float64(totalneg)/float64(t)-target.Alpha, 0)', 'target.Kappa * math.Max(float64(totalneg)/float64(t), target.Alpha)')
bad('C12', 'NPtarget.go', 'e = float64(totalpos) / float64(t)', 'e = float64(totalpos) / float64(totalpos+totalneg+1)')
bad('C12', 'adaboosttarget.go', '\t\t\te += target.Weights[c]\n', '\t\t\te += target.Weights[c] * target.Weights[c]\n')
bad('C12', 'adaboosttarget.go', '\t\tif c > mc {\n\t\t\tm = i\n\t\t\tmc = c\n\t\t}\n\t}\n\n\tfor _, c := range *cases {\n', '\t\tif c >= mc {\n\t\t\tm = i\n\t\t\tmc = c + 1\n\t\t}\n\t}\n\n\tfor _, c := range *cases {\n')
bad('C12', 'adacosttarget.go', 'target.Weights[c] * target.Costs[cat]', 'target.Weights[c] * target.Costs[m]')
bad('C12', 'adacosttarget.go', 'target.Weights[c] * target.Costs[cat]', 'target.Costs[cat]')
bad('C12', 'numadaboostingtarget.go', 'e += target.Weights[c] * target.Norm(c, m)', 'e += target.Norm(c, m)')
bad('C12', 'numadaboostingtarget.go', 'if target.IsMissing(c) == false {\n\t\t\te +=', 'if c >= 0 {\n\t\t\te +=')
bad('C12', 'l1target.go', 'e = e / float64(n)', 'e = e / float64(len(*cases))')
bad('C12', 'l1target.go', 'math.Abs(predicted - target.Get(i))', 'math.Abs(predicted*predicted - target.Get(i))')
bad('C12', 'l1target.go', '\t\t\tn += 1\n', '\t\t\tn += 2\n')
bad('C12', 'densenumfeature.go', '\t\tsum_sqr += x * x\n', '\t\tsum_sqr += x * sum\n')
bad('C12', 'densenumfeature.go', '\t\tsum += x\n\t\tsum_sqr += x * x\n', '\t\tif !target.Missing[i] {\n\t\t\tsum += x\n\t\t}\n\t\tsum_sqr += x * x\n')
bad('C12', 'densenumfeature.go', 'e = sum_sqr - sum*sum/float64(len(*cases))', 'e = sum_sqr - sum*sum')
bad('C12', 'densenumfeature.go', '\tm = m / float64(n)\n', '\tm = m / float64(len(*cases))\n')
bad('C12', 'densenumfeature.go', '\te = e / float64(n)\n', '\te = e / float64(n+1)\n')
bad('C12', 'densenumfeature.go', '\t\t\td := predicted - target.NumData[i]\n\t\t\te += d * d\n', '\t\t\td := predicted - target.NumData[i]\n\t\t\te += d\n')
bad('C12', 'densenumfeature.go', 'math.Abs(f.NumData[i] - v)', 'math.Abs(f.NumData[i]) - math.Abs(v)')
bad('C12', 'gradboosttarget.go', 'diff := (allocs.Lsum / nl) - (allocs.Rsum / nr)', 'diff := (allocs.Lsum / nl) + (allocs.Rsum / nr)')
bad('C12', 'gradboosttarget.go', '(diff * diff * nl * nr) / (nl + nr)', '(diff * diff * nl * nr) / (nl * nr)')
bad('C12', 'hdistancetarget.go', '\tinner -= float64(r[1]) / total_1', '\tinner -= float64(l[1]) / total_1')
bad('C12', 'hdistancetarget.go', '\td += inner * inner', '\td = inner * inner')
bad('C12', 'transduction.go', 'e = target.CatFeature.Impurity(cases, counter) + target.Alpha*target.Density(cases, counter)', 'e = target.CatFeature.Impurity(cases, counter) + target.Beta*target.Density(cases, counter)')
bad('C12', 'ordinaltarget.go', 'return f.Mode(cases)', 'return f.Mean(cases)')
quiet('C12', 'densecatfeature.go', '\te++\n\tt := float64(total * total)\n\tfor _, i := range *counts {\n\t\te -= float64(i*i) / t\n\t}\n\treturn\n}\n', '\tt := float64(total)\n\tsum := 0.0\n\tfor k := 0; k < len(*counts); k++ {\n\t\tn := float64((*counts)[k])\n\t\tsum += n * n\n\t}\n\te = 1 - sum/(t*t)\n\treturn\n}\n')
quiet('C12', 'densecatfeature.go', '\te++\n\tt := float64(total * total)\n\tfor _, i := range *counts {\n\t\te -= float64(i*i) / t\n\t}\n\treturn\n}\n', '\treturn target.ImpFromCounts(total, counts)\n}\n')
quiet('C12', 'densecatfeature.go', ('\tt := float64(total * total)\n\tfor _, i := range *counts {\n\t\te -= float64(i*i) / t\n\t}\n\treturn\n', 1), '\tfor _, i := range *counts {\n\t\tif i == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tp := float64(i) / float64(total)\n\t\te -= p * p\n\t}\n\treturn\n')
quiet('C12', 'entropytarget.go', '\tp := 0.0\n\tfor _, i := range *counts {\n\t\tif i > 0 {\n\t\t\tp = float64(i) / float64(total)\n\t\t\te -= p * math.Log(p)\n\t\t}\n\t}\n\treturn\n\n}\n', '\tfor _, i := range *counts {\n\t\tif i == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tp := float64(i) / float64(total)\n\t\te += p * math.Log(p)\n\t}\n\te = -e\n\treturn\n\n}\n')
quiet('C12', 'entropytarget.go', '\t\t\te -= p * math.Log(p)\n\t\t}\n\n\t}', '\t\t\te -= plogp(p)\n\t\t}\n\n\t}', ('', 'func NewEntropyTarget', 'func plogp(p float64) float64 {\n\treturn p * math.Log(p)\n}\n\nfunc NewEntropyTarget'))
quiet('C12', 'wrftarget.go', '\t\te -= float64(v*v) * w * w\n\t}\n\n\te /= float64(total * total)\n\te++\n\n\treturn\n', '\t\tnw := float64(v) * w\n\t\te += nw * nw\n\t}\n\n\treturn 1.0 - e/(total*total)\n')
quiet('C12', 'regrettarget.go', '\tfor cat, count := range *counter {\n\n\t\tif cat != mi {\n\t\t\te += target.Costs[cat] * float64(count)\n\t\t}\n\n\t}\n\te /= float64(t)\n', '\tfor cat, count := range *counter {\n\t\tif cat == mi {\n\t\t\tcontinue\n\t\t}\n\t\te += target.Costs[cat] * float64(count) / float64(t)\n\t}\n')
quiet('C12', 'NPtarget.go', '\tif target.Posi == mi {\n\t\t//False', '\tif mi == target.Posi {\n\t\t//False')
quiet('C12', 'NPtarget.go', '\t\t} else {\n\t\t\ttotalneg += count\n\t\t}\n', '\t\t}\n\t\tif cat != target.Posi {\n\t\t\ttotalneg += count\n\t\t}\n')
quiet('C12', 'adacosttarget.go', '\t\tif cat != m {\n\t\t\te += target.Weights[c] * target.Costs[cat]\n\t\t}\n', '\t\tif cat == m {\n\t\t\tcontinue\n\t\t}\n\t\tcost := target.Costs[cat]\n\t\te += cost * target.Weights[c]\n')
quiet('C12', 'adaboosttarget.go', '\tvar m, mc int\n\n\tfor i, c := range *counter {\n\t\tif c > mc {\n\t\t\tm = i\n\t\t\tmc = c\n\t\t}\n\t}\n\n\tfor _, c := range *cases {\n', '\tm := mostCommon(*counter)\n\n\tfor _, c := range *cases {\n', ('', '//Boost performs', 'func mostCommon(counts []int) int {\n\tbest, n := 0, 0\n\tfor i := range counts {\n\t\tif counts[i] > n {\n\t\t\tbest, n = i, counts[i]\n\t\t}\n\t}\n\treturn best\n}\n\n//Boost performs'))
quiet('C12', 'numadaboostingtarget.go', '\t\tif target.IsMissing(c) == false {\n\t\t\te += target.Weights[c] * target.Norm(c, m)\n\t\t}\n', '\t\tif target.IsMissing(c) {\n\t\t\tcontinue\n\t\t}\n\t\terr := target.Norm(c, m)\n\t\te += err * target.Weights[c]\n')
quiet('C12', 'l1target.go', 'e += math.Abs(predicted - target.Get(i))', 'e += math.Abs(target.Get(i) - predicted)')
quiet('C12', 'densenumfeature.go', '\tsum, sum_sqr := target.SumAndSumSquares(cases)\n\te = sum_sqr - sum*sum/float64(len(*cases))\n', '\tn := float64(len(*cases))\n\tsum, sum_sqr := target.SumAndSumSquares(cases)\n\tmean := sum / n\n\te = sum_sqr - n*mean*mean\n')
quiet('C12', 'densenumfeature.go', '\tfor _, i := range *cases {\n\t\tx := target.NumData[i]\n', '\tdata := target.NumData\n\tfor k := range *cases {\n\t\tx := data[(*cases)[k]]\n')
quiet('C12', 'gradboosttarget.go', '\tdiff := (allocs.Lsum / nl) - (allocs.Rsum / nr)\n\timpurityDecrease = (diff * diff * nl * nr) / (nl + nr)\n', '\tlmean := allocs.Lsum / nl\n\trmean := allocs.Rsum / nr\n\timpurityDecrease = (nl * nr / (nl + nr)) * (rmean - lmean) * (rmean - lmean)\n')
quiet('C12', 'hdistancetarget.go', '\tinner := float64(l[0])\n\tinner /= total_0\n\tinner -= float64(l[1]) / total_1\n\td = inner * inner\n\n\tinner = float64(r[0])\n\tinner /= total_0\n\tinner -= float64(r[1]) / total_1\n\td += inner * inner\n', '\tleft := float64(l[1])/total_1 - float64(l[0])/total_0\n\tright := float64(r[1])/total_1 - float64(r[0])/total_0\n\td = left*left + right*right\n')
quiet('C12', 'densecatfeature.go', '\tfor i = range counter {\n\t\tcounter[i] = 0\n\t}\n\n\tfor _, i = range *cases {\n\t\t//most expensive statement:\n\t\tcounter[catdata[i]]++\n', '\tfor k := len(counter) - 1; k >= 0; k-- {\n\t\tcounter[k] = 0\n\t}\n\n\tfor _, c := range *cases {\n\t\ti = catdata[c]\n\t\tcounter[i] += 1\n')
bad('C12', 'densecatfeature.go', '\tfor i = range counter {\n\t\tcounter[i] = 0\n\t}', '\tfor i = range counter {\n\t\tif counter[i] > 1 {\n\t\t\tcounter[i] = 0\n\t\t}\n\t}')
bad('C11', 'entropytarget.go', 'impurityDecrease += nr * target.Impurity(r, allocs.RCounter)', 'impurityDecrease += nr * target.Impurity(r, allocs.LCounter)')
bad('C11', 'entropytarget.go', 'impurityDecrease += nr * target.Impurity(r, allocs.RCounter)', 'impurityDecrease += nr * target.Impurity(r, allocs.Counter)')
bad('C11', 'entropytarget.go', ('impurityDecrease /= nl + nr + nm', 0), 'impurityDecrease /= nl + nr')
bad('C11', 'entropytarget.go', ('impurityDecrease /= nl + nr + nm', 1), 'impurityDecrease /= nl + nr')
bad('C11', 'entropytarget.go', 'impurityDecrease = nl * target.ImpFromCounts(len(*l), allocs.LCounter)', 'impurityDecrease = nl * target.ImpFromCounts(len(*r), allocs.LCounter)')
bad('C11', 'entropytarget.go', 'impurityDecrease = nl * target.ImpFromCounts(len(*l), allocs.LCounter)', 'impurityDecrease = nl * target.CatFeature.Impurity(l, allocs.LCounter)')
bad('C11', 'entropytarget.go', '\ttarget.MoveCountsRtoL(allocs, movedRtoL)\n', '\tif len(*movedRtoL) > 1 {\n\t\ttarget.MoveCountsRtoL(allocs, movedRtoL)\n\t}\n')
bad('C11', 'entropytarget.go', '\ttarget.MoveCountsRtoL(allocs, movedRtoL)\n', '\ttarget.MoveCountsRtoL(allocs, l)\n')
bad('C11', 'entropytarget.go', '\ttarget.MoveCountsRtoL(allocs, movedRtoL)\n', '')
bad('C11', 'entropytarget.go', '\ttarget.MoveCountsRtoL(allocs, movedRtoL)\n\tnl := float64(len(*l))\n\tnr := float64(len(*r))\n\tnm := 0.0\n\n\timpurityDecrease = nl * target.ImpFromCounts(len(*l), allocs.LCounter)\n', '\tnl := float64(len(*l))\n\tnr := float64(len(*r))\n\tnm := 0.0\n\n\timpurityDecrease = nl * target.ImpFromCounts(len(*l), allocs.LCounter)\n\ttarget.MoveCountsRtoL(allocs, movedRtoL)\n')
bad('C11', 'entropytarget.go', ('\tif m != nil && len(*m) > 0 {', 0), '\tif m != nil && len(*m) > 1 {')
bad('C11', 'entropytarget.go', ('\tif m != nil && len(*m) > 0 {', 1), '\tif m != nil && len(*m) > len(*l) {')
bad('C11', 'entropytarget.go', 'func (target *EntropyTarget) UpdateSImpFromAllocs', 'func (target *EntropyTarget) UpdateSImpFromAlloc')
bad('C11', 'l1target.go', 'func (target *L1Target) SplitImpurity', 'func (target *L1Target) SplitImpurity2', ('', 'return target.SplitImpurity(l, r, m, allocs)', 'return target.SplitImpurity2(l, r, m, allocs)'))
bad('C11', 'l1target.go', 'target.Impurity(r, nil)', 'target.Impurity(l, nil)')
bad('C11', 'l1target.go', 'nm * target.Impurity(m, nil)', 'target.Impurity(m, nil)')
bad('C11', 'l1target.go', 'return target.SplitImpurity(l, r, m, allocs)', 'return target.SplitImpurity(r, l, m, allocs)')
bad('C11', 'l1target.go', 'return target.SplitImpurity(l, r, m, allocs)', 'return target.SplitImpurity(l, r, nil, allocs)')
bad('C11', 'l1target.go', 'return target.SplitImpurity(l, r, m, allocs)', 'return target.NumFeature.SplitImpurity(l, r, m, allocs)')
bad('C11', 'wrftarget.go', '\t\tlcounter[cat]++\n', '\t\tlcounter[cat] += 0\n')
bad('C11', 'wrftarget.go', '\t\trcounter[cat]--\n', '\t\tif rcounter[cat] > 1 {\n\t\t\trcounter[cat]--\n\t\t}\n')
bad('C11', 'wrftarget.go', '\trcounter := *allocs.RCounter\n', '\trcounter := *allocs.LCounter\n')
bad('C11', 'wrftarget.go', '\trcounter := *allocs.RCounter\n', '\trcounter := *allocs.Counter\n')
bad('C11', 'wrftarget.go', 'for _, i = range *movedRtoL {', 'for _, i = range (*movedRtoL)[1:] {')
bad('C11', 'wrftarget.go', 'for _, i = range *movedRtoL {', 'for _, i = range *r {')
bad('C11', 'wrftarget.go', '\t\tlcounter[cat]++\n', '\t\tlcounter[cat] += 2\n')
bad('C11', 'wrftarget.go', 'nm * target.ImpFromCounts(allocs.Counter)', 'nm * target.ImpFromCounts(allocs.RCounter)')
bad('C11', 'wrftarget.go', 'impurityDecrease += nr * target.ImpFromCounts(allocs.RCounter)', 'impurityDecrease += nl * target.ImpFromCounts(allocs.RCounter)')
bad('C11', 'adacosttarget.go', 'nr * target.ImpFromCounts(r, allocs.RCounter)', 'nr * target.ImpFromCounts(l, allocs.RCounter)')
bad('C11', 'adacosttarget.go', 'nm * target.ImpFromCounts(m, allocs.Counter)', 'nm * target.ImpFromCounts(r, allocs.Counter)')
bad('C11', 'densecatfeature.go', ('nr * target.GiniWithoutAlocate(r, allocs.RCounter)', 0), 'nr * target.GiniWithoutAlocate(r, allocs.LCounter)')
bad('C11', 'densenumfeature.go', '\tallocs.Lsum += MVsum\n', '\tallocs.Lsum = MVsum\n')
bad('C11', 'densenumfeature.go', '\tallocs.Rsum_sqr -= MVsum_sqr\n', '')
bad('C11', 'densenumfeature.go', '\tallocs.Rsum -= MVsum\n', '\tallocs.Rsum -= MVsum_sqr\n')
bad('C11', 'densenumfeature.go', 'allocs.Rsum*allocs.Rsum/nr', 'allocs.Rsum*allocs.Rsum/nl')
bad('C11', 'densenumfeature.go', '\tallocs.Rsum_sqr = sum_sqr\n', '\tallocs.Rsum_sqr = sum\n')
bad('C11', 'densenumfeature.go', '\tallocs.Lsum_sqr = sum_sqr\n', '')
bad('C11', 'densenumfeature.go', 'impurityDecrease += nr * (sum_sqr - sum*sum/nr)', 'impurityDecrease += nr * (sum_sqr - sum*sum/nl)')
bad('C11', 'densenumfeature.go', 'impurityDecrease = nl * (sum_sqr - sum*sum/nl)', 'impurityDecrease = sum_sqr - sum*sum/nl')
bad('C11', 'densenumfeature.go', '\t\tallocs.Msum = sum\n', '')
quiet('C11', 'densenumfeature.go', 'allocs.MM = sorted[lastsplit:i]', 'allocs.MM = sorted[lasti:i]')
bad('C11', 'densenumfeature.go', 'allocs.MM = sorted[lastsplit:i]', 'allocs.MM = sorted[i-1 : i]')
bad('C11', 'densenumfeature.go', 'allocs.MM = sorted[lastsplit:i]', 'allocs.MM = sorted[lastsplit : i-1]')
bad('C11', 'densenumfeature.go', ('\t\t\t\tlastsplit = i\n', 1), '')
bad('C11', 'densenumfeature.go', 'if lastsplit == 0 {', 'if lastsplit < 0 {')
bad('C11', 'densenumfeature.go', ('\t\t\t\tlastsplit = i\n\t\t\t} else', 0), '\t\t\t\tlastsplit = i - 1\n\t\t\t} else')
bad('C11', 'densenumfeature.go', '\t\t\tif innerimp > impurityDecrease {\n', '\t\t\tlastsplit++\n\t\t\tif innerimp > impurityDecrease {\n')
bad('C11', 'densenumfeature.go', '\t\t\tlasti = i\n\n\t\t}', '\t\t\tlasti = i\n\t\t\ttarget.Impurity(&allocs.MM, allocs.LCounter)\n\n\t\t}')
bad('C11', 'gradboosttarget.go', '\tallocs.Rsum -= MVsum\n', '')
bad('C11', 'gradboosttarget.go', 'allocs.Rsum = target.Sum(r)', 'allocs.Rsum = target.Sum(l)')
bad('C11', 'gradboosttarget.go', 'MVsum := target.Sum(movedRtoL)', 'MVsum := target.Sum(l)')
bad('C11', 'hdistancetarget.go', 'target.CountPerCat(r, allocs.RCounter)', 'target.CountPerCat(l, allocs.RCounter)')
bad('C11', 'hdistancetarget.go', 'return target.HDist(allocs.LCounter, allocs.RCounter)', 'return target.HDist(allocs.LCounter, allocs.LCounter)')
bad('C11', 'transduction.go', '\tif target.Alpha == 0.0 {\n\t\timpurityDecrease =', '\tif target.Beta == 0.0 {\n\t\timpurityDecrease =')
bad('C11', 'transduction.go', 'target.CatFeature.SplitImpurity(l, r, m, allocs)', 'target.CatFeature.SplitImpurity(r, l, nil, allocs)')
quiet('C11', 'entropytarget.go', '\tnl := float64(len(*l))\n\tnr := float64(len(*r))\n\tnm := 0.0\n\n\timpurityDecrease = nl * target.Impurity(l, allocs.LCounter)\n\timpurityDecrease += nr * target.Impurity(r, allocs.RCounter)\n\tif m != nil && len(*m) > 0 {\n\t\tnm = float64(len(*m))\n\t\timpurityDecrease += nm * target.Impurity(m, allocs.Counter)\n\t}\n\n\timpurityDecrease /= nl + nr + nm\n\treturn\n}', '\tn := 0.0\n\tadd := func(cases *[]int, counter *[]int) {\n\t\tk := float64(len(*cases))\n\t\tn += k\n\t\timpurityDecrease += target.Impurity(cases, counter) * k\n\t}\n\tadd(r, allocs.RCounter)\n\tadd(l, allocs.LCounter)\n\tif m != nil && len(*m) != 0 {\n\t\tadd(m, allocs.Counter)\n\t}\n\treturn impurityDecrease / n\n}')
quiet('C11', 'entropytarget.go', '\tnl := float64(len(*l))\n\tnr := float64(len(*r))\n\tnm := 0.0\n\n\timpurityDecrease = nl * target.Impurity(l, allocs.LCounter)\n\timpurityDecrease += nr * target.Impurity(r, allocs.RCounter)\n', '\ttarget.CountPerCat(l, allocs.LCounter)\n\ttarget.CountPerCat(r, allocs.RCounter)\n\tnl := float64(len(*l))\n\tnr := float64(len(*r))\n\tnm := 0.0\n\n\timpurityDecrease = nl * target.ImpFromCounts(len(*l), allocs.LCounter)\n\timpurityDecrease += nr * target.ImpFromCounts(len(*r), allocs.RCounter)\n')
quiet('C11', 'entropytarget.go', '\tnl := float64(len(*l))\n\tnr := float64(len(*r))\n\tnm := 0.0\n\n\timpurityDecrease = nl * target.Impurity(l, allocs.LCounter)\n', '\tif m == nil || len(*m) == 0 {\n\t\tnl, nr := float64(len(*l)), float64(len(*r))\n\t\tn := nl + nr\n\t\treturn nl/n*target.Impurity(l, allocs.LCounter) + nr/n*target.Impurity(r, allocs.RCounter)\n\t}\n\tnl := float64(len(*l))\n\tnr := float64(len(*r))\n\tnm := 0.0\n\n\timpurityDecrease = nl * target.Impurity(l, allocs.LCounter)\n')
quiet('C11', 'entropytarget.go', '\ttarget.MoveCountsRtoL(allocs, movedRtoL)\n', '\tfor k := len(*movedRtoL) - 1; k >= 0; k-- {\n\t\tcat := target.Geti((*movedRtoL)[k])\n\t\t(*allocs.RCounter)[cat]--\n\t\t(*allocs.LCounter)[cat]++\n\t}\n')
quiet('C11', 'wrftarget.go', '\tvar cat, i int\n\tlcounter := *allocs.LCounter\n\trcounter := *allocs.RCounter\n\tfor _, i = range *movedRtoL {\n\n\t\t//most expensive statement:\n\t\tcat = target.Geti(i)\n\t\tlcounter[cat]++\n\t\trcounter[cat]--\n\t\t//counter[target.Geti(i)]++\n\n\t}\n', '\ttarget.MoveCountsRtoL(allocs, movedRtoL)\n')
quiet('C11', 'wrftarget.go', '\t\trcounter[cat]--\n\t\t//counter[target.Geti(i)]++\n\n\t}\n', '\t}\n\tfor j := 0; j < len(*movedRtoL); j++ {\n\t\trcounter[target.Geti((*movedRtoL)[j])]--\n\t}\n')
quiet('C11', 'densenumfeature.go', '\t\t\tif lastsplit == 0 {\n\t\t\t\tallocs.LM = sorted[:i]\n\t\t\t\tallocs.RM = sorted[i:]\n', '\t\t\tallocs.LM = sorted[:i]\n\t\t\tallocs.RM = sorted[i:]\n\t\t\tif first := lastsplit == 0; first {\n')
quiet('C11', 'densenumfeature.go', '\t\tlastsplit := 0\n', '\t\tlastsplit := 0\n\t\tfirst := true\n', ('', 'if lastsplit == 0 {', 'if first {\n\t\t\t\tfirst = false'))
quiet('C11', 'densenumfeature.go', '\timpurityDecrease = nl * (allocs.Lsum_sqr - allocs.Lsum*allocs.Lsum/nl)\n', '\timpurityDecrease = nl*allocs.Lsum_sqr - allocs.Lsum*allocs.Lsum\n')
quiet('C11', 'densenumfeature.go', '\tallocs.Rsum_sqr = sum_sqr\n', '\tallocs.Rsum_sqr = sum_sqr\n\t_ = nm\n')
quiet('C11', 'gradboosttarget.go', '\timpurityDecrease = FriedmanScore(allocs, l, r)\n\treturn\n}\n\nfunc', '\treturn FriedmanScore(allocs, l, r)\n}\n\nfunc')
bad('C11', 'splitallocations.go', '\trcounter := make([]int, target.NCats())', '\trcounter := lcounter')
bad('C11', 'splitallocations.go', '\t\t&lcounter,\n', '\t\t&counter,\n', ('', '\tlcounter := make', '\t_ = make'))
bad('C11', 'splitallocations.go', '\trcounter := make([]int, target.NCats())', '\trcounter := make([]int, len(lcounter)-1)')
quiet('C11', 'splitallocations.go', '\tcounter := make([]int, target.NCats())\n\tlcounter := make([]int, target.NCats())', '\tn := target.NCats()\n\tcounter := make([]int, n)\n\tlcounter := make([]int, n)')
bad('C23', 'densecatfeature.go', '\t\tif !f.Missing[i] {\n\t\t\tcounts[f.CatData[i]] += 1\n\t\t}\n\n\t}\n\tmax := 0\n\tfor k, v := range counts {\n\t\tif v > max {\n\t\t\tm = k', '\t\tcounts[f.CatData[i]] += 1\n\n\t}\n\tmax := 0\n\tfor k, v := range counts {\n\t\tif v > max {\n\t\t\tm = k')
bad('C23', 'densecatfeature.go', '\t\tif v > max {\n\t\t\tm = k\n\t\t\tmax = v\n', '\t\tif v >= max {\n\t\t\tm = k\n\t\t\tmax = v\n')
bad('C23', 'densecatfeature.go', '\t\tif v > max {\n\t\t\tm = k\n\t\t\tmax = v\n', '\t\tif v > max {\n\t\t\tm = k\n\t\t\tmax = k\n')
bad('C23', 'densecatfeature.go', '\t\t\tcounts[f.CatData[i]] += 1\n\t\t}\n\n\t}\n\tmax := 0', '\t\t\tcounts[f.CatData[i]] = 1\n\t\t}\n\n\t}\n\tmax := 0')
bad('C23', 'densecatfeature.go', '\tpred = f.Mode(&cases)\n', '\tsome := cases[1:]\n\tpred = f.Mode(&some)\n')
bad('C23', 'densecatfeature.go', '\tm = f.Back[f.Modei(cases)]', '\tm = f.Back[len(f.Back)-1-f.Modei(cases)]')
quiet('C23', 'densecatfeature.go', '\t\tif v > max {\n\t\t\tm = k\n\t\t\tmax = v\n', '\t\tif max < v {\n\t\t\tmax = v\n\t\t\tm = k\n')
quiet('C23', 'densecatfeature.go', '\t\tif !f.Missing[i] {\n\t\t\tcounts[f.CatData[i]] += 1\n\t\t}\n\n\t}\n\tmax := 0', '\t\tif f.Missing[i] {\n\t\t\tcontinue\n\t\t}\n\t\tcounts[f.CatData[i]]++\n\n\t}\n\tmax := 0')
quiet('C23', 'densecatfeature.go', '\tpred = f.Mode(&cases)\n', '\tpred = f.NumToCat(f.Modei(&cases))\n')
quiet('C23', 'densecatfeature.go', '\tm = f.Back[f.Modei(cases)]', '\tmode := f.Modei(cases)\n\tm = f.NumToCat(mode)')
quiet('C23', 'densecatfeature.go', '\tfor k, v := range counts {\n\t\tif v > max {\n\t\t\tm = k\n\t\t\tmax = v\n\t\t}\n\t}\n', '\tfor k := 0; k < len(counts); k++ {\n\t\tif counts[k] > max {\n\t\t\tm, max = k, counts[k]\n\t\t}\n\t}\n')
bad('C23', 'wrftarget.go', '\t\tval := float64(v) * target.Weights[k]\n\t\tif val > max {\n\t\t\tm = k\n\t\t\tmax = val', '\t\tval := float64(v) / target.Weights[k]\n\t\tif val > max {\n\t\t\tm = k\n\t\t\tmax = val')
bad('C23', 'wrftarget.go', '\t\tval := float64(v) * target.Weights[k]\n\t\tif val > max {', '\t\tval := float64(v) * target.Weights[k]\n\t\tif val > max && v > 1 {')
bad('C23', 'wrftarget.go', '\t\tif !target.IsMissing(i) {\n\t\t\tcounts[target.Geti(i)] += 1\n\t\t}', '\t\tif !target.IsMissing(i) || i == 0 {\n\t\t\tcounts[target.Geti(i)] += 1\n\t\t}')
bad('C23', 'wrftarget.go', '\tpred = target.NumToCat(m)\n', '\tpred = target.CatFeature.FindPredicted(cases)\n\t_ = m\n')
bad('C23', 'wrftarget.go', '\tfor _, i := range cases {\n\t\tif !target.IsMissing(i)', '\tfor _, i := range cases[:len(cases)-1] {\n\t\tif !target.IsMissing(i)')
quiet('C23', 'wrftarget.go', '\t\t\tm = k\n\t\t\tmax = val', '\t\t\tmax = val\n\t\t\tm = k')
quiet('C23', 'wrftarget.go', '\tcounts := make([]int, target.NCats())\n\tfor _, i := range cases {\n\t\tif !target.IsMissing(i) {\n\t\t\tcounts[target.Geti(i)] += 1\n\t\t}\n\n\t}\n', '\tcounts := target.tally(cases)\n', ('', '//FindPredicted finds', 'func (target *WRFTarget) tally(cases []int) []int {\n\tcounts := make([]int, target.NCats())\n\tfor i := 0; i < len(cases); i++ {\n\t\tc := cases[i]\n\t\tif target.IsMissing(c) {\n\t\t\tcontinue\n\t\t}\n\t\tcounts[target.Geti(c)]++\n\t}\n\treturn counts\n}\n\n//FindPredicted finds'))
bad('C23', 'regrettarget.go', '\tcounts := make([]int, target.NCats())\n\n\ttarget.CountPerCat(&cases, &counts)\n\n\tfor cat, count := range counts {\n\t\tcc := float64(count) * target.Costs[cat]', '\tcounts := make([]int, target.NCats())\n\n\ttarget.CountPerCat(&cases, &counts)\n\n\tfor cat, count := range counts {\n\t\tcc := float64(count) + target.Costs[cat]')
bad('C23', 'regrettarget.go', '\ttarget.CountPerCat(&cases, &counts)\n\n\tfor cat, count := range counts {', '\tsome := cases[:len(cases)/2+1]\n\ttarget.CountPerCat(&some, &counts)\n\n\tfor cat, count := range counts {')
bad('C23', 'regrettarget.go', '\treturn target.NumToCat(mi)\n', '\t_ = mi\n\treturn target.CatFeature.FindPredicted(cases)\n')
bad('C23', 'regrettarget.go', '\tfor cat, count := range counts {\n', '\tfor cat, count := range counts[1:] {\n')
bad('C23', 'regrettarget.go', '\tfor cat, count := range counts {\n', '\tcounts[0] = 0\n\tfor cat, count := range counts {\n')
bad('C23', 'regrettarget.go', '\tcounts := make([]int, target.NCats())\n\n\ttarget.CountPerCat(&cases, &counts)\n\n\tfor cat, count := range counts {\n\t\tcc := float64(count) * target.Costs[cat]\n\t\tif cc > mc {\n\t\t\tmi = cat\n\t\t\tmc = cc\n\t\t}\n\t}\n\n\treturn target.NumToCat(mi)', '\tcounts := make([]int, target.NCats())\n\n\tfor cat, count := range counts {\n\t\tcc := float64(count) * target.Costs[cat]\n\t\tif cc > mc {\n\t\t\tmi = cat\n\t\t\tmc = cc\n\t\t}\n\t}\n\ttarget.CountPerCat(&cases, &counts)\n\n\treturn target.NumToCat(mi)')
quiet('C23', 'regrettarget.go', '\tfor cat, count := range counts {\n\t\tcc := float64(count) * target.Costs[cat]\n', '\tfor cat := range counts {\n\t\tcc := target.Costs[cat] * float64(counts[cat])\n')
quiet('C23', 'regrettarget.go', '\tcounts := make([]int, target.NCats())\n\n\ttarget.CountPerCat(&cases, &counts)\n', '\tcounts := make([]int, target.NCats())\n\ttally := &counts\n\ttarget.CountPerCat(&cases, tally)\n')
bad('C23', 'NPtarget.go', '\t\t\tcc /= target.Alpha\n\t\t}\n\t\tif cc > mc {\n\t\t\tmi = cat\n\t\t\tmc = cc\n\t\t}\n\t}\n\n\treturn target.NumToCat(mi)', '\t\t\tcc *= target.Alpha\n\t\t}\n\t\tif cc > mc {\n\t\t\tmi = cat\n\t\t\tmc = cc\n\t\t}\n\t}\n\n\treturn target.NumToCat(mi)')
bad('C23', 'NPtarget.go', '\t\tif cat == target.Posi {\n\t\t\tcc /= target.Alpha\n\t\t}\n\t\tif cc > mc {\n\t\t\tmi = cat\n\t\t\tmc = cc\n\t\t}\n\t}\n\n\treturn target.NumToCat(mi)', '\t\tif cat != target.Posi {\n\t\t\tcc /= target.Alpha\n\t\t}\n\t\tif cc > mc {\n\t\t\tmi = cat\n\t\t\tmc = cc\n\t\t}\n\t}\n\n\treturn target.NumToCat(mi)')
bad('C23', 'NPtarget.go', '\treturn target.NumToCat(mi)\n', '\t_ = mi\n\treturn target.NumToCat(target.Posi)\n')
bad('C23', 'transduction.go', '\tm := target.Unlabeled\n', '\tm := 0\n')
bad('C23', 'transduction.go', '\t\t\tvf = target.Beta * float64(v)\n', '\t\t\tvf = target.Alpha * float64(v)\n')
bad('C23', 'transduction.go', '\tmax := 0.0\n\tvf := 0.0\n\tm := target.Unlabeled', '\tmax := target.Beta\n\tvf := 0.0\n\tm := target.Unlabeled')
bad('C23', 'transduction.go', '\t\tcounts[target.Geti(i)] += 1\n', '\t\tif target.Geti(i) != target.Unlabeled {\n\t\t\tcounts[target.Geti(i)] += 1\n\t\t}\n')
quiet('C23', 'transduction.go', '\t\tif k == target.Unlabeled {\n\t\t\tvf = target.Beta * float64(v)\n\t\t} else {\n\t\t\tvf = float64(v)\n\t\t}\n', '\t\tvf = float64(v)\n\t\tif k == target.Unlabeled {\n\t\t\tvf *= target.Beta\n\t\t}\n')
bad('C23', 'dentropytarget.go', '\t\t\ttotal += cost\n', '\t\t\ttotal += 1.0\n')
bad('C23', 'dentropytarget.go', '\t\t\t\tcount += cost\n', '\t\t\t\tcount += 1.0\n')
bad('C23', 'dentropytarget.go', 'if target.NumToCat(ti) == "True" {', 'if target.NumToCat(ti) == "true" {')
bad('C23', 'dentropytarget.go', 'if target.NumToCat(ti) == "True" {', 'if ti == 1 {')
bad('C23', 'dentropytarget.go', '\t\t\ttotal += cost\n', '\t\t\tif !target.IsMissing(i) {\n\t\t\t\ttotal += cost\n\t\t\t}\n')
bad('C23', 'dentropytarget.go', '\treturn fmt.Sprintf("%v", prob_true)', '\treturn fmt.Sprintf("%.3f", prob_true)')
quiet('C23', 'dentropytarget.go', 'if target.NumToCat(ti) == "True" {', 'if "True" == target.NumToCat(ti) {')
quiet('C23', 'dentropytarget.go', '\treturn fmt.Sprintf("%v", prob_true)', '\treturn fmt.Sprint(prob_true)')
quiet('C23', 'dentropytarget.go', '\t\t\tif target.NumToCat(ti) == "True" {\n\t\t\t\tcount += cost\n\t\t\t}\n\t\t\ttotal += cost\n', '\t\t\ttotal += cost\n\t\t\tif target.NumToCat(ti) != "True" {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tcount += cost\n')
bad('C23', 'hdistancetarget.go', 'target.NumToCat(target.Geti(i)) == target.Pos_class', 'target.NumToCat(target.Geti(i)) != target.Pos_class')
bad('C23', 'hdistancetarget.go', 'float64(count) / float64(len(cases))', 'float64(count+1) / float64(len(cases)+2)')
bad('C23', 'hdistancetarget.go', '\t\t\tcount++\n', '\t\t\tcount += 2\n')
quiet('C23', 'hdistancetarget.go', '\t\t\tcount++\n', '\t\t\tcount = count + 1\n')
bad('C23', 'gradboostclasstarget.go', 'denom += (y - r) * (1.0 - y + r)', 'denom += (y - r) * (1.0 - y - r)')
bad('C23', 'gradboostclasstarget.go', 'denom += (y - r) * (1.0 - y + r)', 'denom += (f.Pred.Get(c) - r) * (1.0 - y + r)')
bad('C23', 'gradboostclasstarget.go', '\treturn num / denom //', '\treturn -num / denom //')
bad('C23', 'gradboostclasstarget.go', '\t\tr := f.Get(c)\n', '\t\tr := f.Get(c)\n\t\tif r == 0 {\n\t\t\tcontinue\n\t\t}\n')
quiet('C23', 'gradboostclasstarget.go', 'denom += (y - r) * (1.0 - y + r)', 'p := y - r\n\t\tdenom += p - p*p')
bad('C23', 'ordinaltarget.go', '\treturn fmt.Sprintf("%v", target.Predicted(&cases))', '\tif len(cases) > 0 {\n\t\treturn target.NumFeature.FindPredicted(cases)\n\t}\n\treturn fmt.Sprintf("%v", target.Predicted(&cases))')
bad('C23', 'ordinaltarget.go', '\t\t\tm = float64(k)\n', '\t\t\tm = float64(k + v)\n')
bad('C23', 'ordinaltarget.go', '\t\tif !f.IsMissing(i) {\n\t\t\tcounts[int(f.Get(i))] += 1\n\t\t}', '\t\tcounts[int(f.Get(i))] += 1')
bad('C23', 'ordinaltarget.go', 'counts[int(f.Get(i))] += 1', 'counts[int(f.Get(i)+0.5)] += 1')
quiet('C23', 'ordinaltarget.go', '\treturn fmt.Sprintf("%v", target.Predicted(&cases))', '\tmode := target.Mode(&cases)\n\treturn fmt.Sprintf("%v", mode)')
bad('C23', 'densenumfeature.go', '\tpred = fmt.Sprintf("%v", f.Mean(&cases))', '\tpred = fmt.Sprintf("%v", f.Mode(&cases))')
bad('C23', 'densenumfeature.go', '\tpred = fmt.Sprintf("%v", f.Mean(&cases))', '\tpred = fmt.Sprintf("%v", float32(f.Mean(&cases)))')
bad('C23', 'densenumfeature.go', '\tpred = fmt.Sprintf("%v", f.Mean(&cases))', '\tpred = fmt.Sprintf("%.6g", f.Mean(&cases))')
quiet('C23', 'densenumfeature.go', '\tpred = fmt.Sprintf("%v", f.Mean(&cases))', "\tpred = strconv.FormatFloat(f.Mean(&cases), 'g', -1, 64)")
bad('C23', 'entropytarget.go', '//EntropyTarget.Impurity', '//FindPredicted predicts.\nfunc (target *EntropyTarget) FindPredicted(cases []int) string {\n\treturn target.NumToCat(target.Geti(cases[0]))\n}\n\n//EntropyTarget.Impurity')
bad('C33', 'utils.go', 'rm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)', 'rm.Mean = (rm.Mean*rm.Count + val) / (rm.Count + weight)')
bad('C33', 'utils.go', 'rm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)', 'rm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + 1)')
bad('C33', 'utils.go', '\t\trm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)\n\t\trm.Count += weight\n', '\t\trm.Count += weight\n\t\trm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)\n')
bad('C33', 'utils.go', 'rm.Count += weight\n', 'rm.Count += 1\n')
bad('C33', 'utils.go', 'if !math.IsNaN(val) && !math.IsNaN(weight) && weight != 0 {', 'if !math.IsNaN(val) && !math.IsNaN(weight) {')
bad('C33', 'utils.go', 'if !math.IsNaN(val) && !math.IsNaN(weight) && weight != 0 {', 'if !math.IsNaN(weight) && weight != 0 {')
bad('C33', 'utils.go', 'if !math.IsNaN(val) && !math.IsNaN(weight) && weight != 0 {', 'if !math.IsNaN(val) && !math.IsNaN(weight) && weight > 0.01 {')
bad('C33', 'utils.go', 'if !math.IsNaN(val) && !math.IsNaN(weight) && weight != 0 {', 'if !math.IsNaN(val) && !math.IsNaN(weight) && weight != 0 && val != 0 {')
bad('C33', 'utils.go', '\trm.WeightedAdd(val, 1.0)', '\trm.WeightedAdd(val, val)')
bad('C33', 'utils.go', '\trm.WeightedAdd(val, 1.0)', '\trm.WeightedAdd(1.0, val)')
bad('C33', 'utils.go', '\tcount = rm.Count\n', '\tcount = rm.Mean\n')
quiet('C33', 'utils.go', '\t\trm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)\n\t\trm.Count += weight\n', '\t\trm.Count += weight\n\t\trm.Mean += weight * (val - rm.Mean) / rm.Count\n')
quiet('C33', 'utils.go', '\t\trm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)\n\t\trm.Count += weight\n', '\t\ttotal := rm.Mean * rm.Count\n\t\ttotal += weight * val\n\t\trm.Count += weight\n\t\trm.Mean = total / rm.Count\n')
quiet('C33', 'utils.go', '\tif !math.IsNaN(val) && !math.IsNaN(weight) && weight != 0 {\n\t\trm.mutex.Lock()', '\tif weight == 0 || math.IsNaN(val) || math.IsNaN(weight) {\n\t\treturn\n\t}\n\t{\n\t\trm.mutex.Lock()')
bad('C33', 'numballotbox.go', 'bb.box[casei].WeightedAdd(v, weight)', 'bb.box[casei].Add(v)')
bad('C33', 'numballotbox.go', 'bb.box[casei].WeightedAdd(v, weight)', 'bb.box[casei].WeightedAdd(weight, v)')
bad('C33', 'numballotbox.go', '\tif err == nil {\n\t\tbb.box', '\tif err == nil || v != 0 {\n\t\tbb.box')
bad('C33', 'numballotbox.go', '\tif err == nil {\n\t\tbb.box', '\tif err == nil && v > 0 {\n\t\tbb.box')
bad('C33', 'numballotbox.go', 'bb.box[casei].WeightedAdd(v, weight)', 'bb.box[len(bb.box)-1-casei].WeightedAdd(v, weight)')
bad('C33', 'numballotbox.go', '\tv, err := strconv.ParseFloat(pred, 64)', '\tv, err := strconv.ParseFloat(pred, 32)')
bad('C33', 'numballotbox.go', '\tif count > 0 {', '\tif count > 1 {')
bad('C33', 'numballotbox.go', '\tif count > 0 {', '\tif mean > 0 && count > 0 {')
bad('C33', 'numballotbox.go', '\t\tpredicted = fmt.Sprintf("%v", mean)', '\t\tpredicted = fmt.Sprintf("%.4f", mean)')
bad('C33', 'numballotbox.go', '\t\tpredicted = fmt.Sprintf("%v", mean)', '\t\tpredicted = fmt.Sprintf("%v", mean*count)')
bad('C33', 'numballotbox.go', '\tpredicted, _ = bb.box[i].Read()', '\t_, predicted = bb.box[i].Read()')
bad('C33', 'numballotbox.go', '!feature.IsMissing(i) && count > 0 && !math', '!feature.IsMissing(i) && count >= 0 && !math')
bad('C33', 'numballotbox.go', '!feature.IsMissing(i) && count > 0 && !math', 'count > 0 && !math')
bad('C33', 'numballotbox.go', '\t\t\tc += 1\n\t\t}\n', '\t\t}\n\t\tc += 1\n')
bad('C33', 'numballotbox.go', '\t\t\te += d * d\n', '\t\t\te += math.Abs(d)\n')
bad('C33', 'numballotbox.go', '\tr2 /= float64(total)\n', '\tr2 /= float64(total - 1)\n')
bad('C33', 'numballotbox.go', '\t\t\tmean += feature.(*DenseNumFeature).Get(i)\n\t\t\ttotal++\n\t\t}\n', '\t\t\tmean += feature.(*DenseNumFeature).Get(i)\n\t\t}\n\t\ttotal++\n')
bad('C33', 'numballotbox.go', 'e = 1 - bb.TallyError(feature)', 'e = 1 - bb.TallySquaredError(feature)')
bad('C33', 'numballotbox.go', '\tfor i := 0; i < size; i++ {\n\t\tbb.box = append(bb.box, new(RunningMean))', '\trm := new(RunningMean)\n\tfor i := 0; i < size; i++ {\n\t\tbb.box = append(bb.box, rm)')
bad('C33', 'numballotbox.go', 'new(RunningMean))', '&RunningMean{Count: 1})')
quiet('C33', 'numballotbox.go', 'new(RunningMean))', '&RunningMean{})')
quiet('C33', 'numballotbox.go', '\tfor i := 0; i < size; i++ {\n\t\tbb.box = append(bb.box, new(RunningMean))\n\t}\n\treturn &bb', '\tbb.box = *NewRunningMeans(size)\n\treturn &bb')
quiet('C33', 'numballotbox.go', '\tv, err := strconv.ParseFloat(pred, 64)\n\tif err == nil {\n\t\tbb.box[casei].WeightedAdd(v, weight)\n\t}\n', '\tv, err := strconv.ParseFloat(pred, 64)\n\tif err != nil {\n\t\treturn\n\t}\n\tballot := bb.box[casei]\n\tballot.WeightedAdd(v, weight)\n')
quiet('C33', 'numballotbox.go', '\tif count > 0 {\n\t\tpredicted = fmt.Sprintf("%v", mean)\n\t} else {\n\t\tpredicted = "NA"\n\t}\n\treturn', '\tif count <= 0 {\n\t\treturn "NA"\n\t}\n\treturn fmt.Sprint(mean)')
quiet('C33', 'numballotbox.go', '\t\t\td = float64(value) - predicted\n\t\t\te += d * d\n', '\t\t\td = predicted - float64(value)\n\t\t\te += d * d\n')
quiet('C33', 'numballotbox.go', '\t\tif !feature.IsMissing(i) && count > 0 && !math.IsNaN(predicted) {\n\t\t\tvalue := feature.(NumFeature).Get(i)\n\n\t\t\td = float64(value) - predicted\n\t\t\te += d * d\n\t\t\tc += 1\n\t\t}\n', '\t\tif feature.IsMissing(i) || count <= 0 {\n\t\t\tcontinue\n\t\t}\n\t\td = feature.(NumFeature).Get(i) - predicted\n\t\te += d * d\n\t\tc++\n', ('', '\t"math"\n', ''))
quiet('C33', 'numballotbox.go', '\tr2 /= float64(total)\n\n\te = bb.TallySquaredError(feature) / r2', '\te = bb.TallySquaredError(feature) * float64(total) / r2')
bad('C33', 'sumballotbox.go', 'bb.Box[casei].Sum += v * weight', 'bb.Box[casei].Sum += v')
bad('C33', 'sumballotbox.go', 'bb.Box[casei].Sum += v * weight', 'bb.Box[casei].Sum += v + weight')
bad('C33', 'sumballotbox.go', 'bb.Box[casei].Sum += v * weight', 'bb.Box[casei].Sum = v * weight')
bad('C33', 'sumballotbox.go', '\tif err == nil {\n\n', '\tif err == nil && weight > 0 {\n\n')
bad('C33', 'sumballotbox.go', '\tpredicted = bb.Box[i].Sum', '\tpredicted = bb.Box[0].Sum')
bad('C33', 'sumballotbox.go', 'fmt.Sprintf("%v", bb.TallyNum(i))', 'fmt.Sprintf("%g", float32(bb.TallyNum(i)))')
bad('C33', 'sumballotbox.go', '\tcb.Sum = 0.0', '\tcb.Sum = 1.0')
quiet('C33', 'sumballotbox.go', 'bb.Box[casei].Sum += v * weight', 'ballot := bb.Box[casei]\n\t\tballot.Sum = ballot.Sum + weight*v')
bad('C33', 'catballotbox.go', '\tpredn := bb.CatToNum(pred)\n\tbb.catMutex.Unlock()\n', '\tpredn := bb.CatToNum(pred)\n\tbb.catMutex.Unlock()\n\tif weight < 0.001 {\n\t\treturn\n\t}\n')
bad('C33', 'catballotbox.go', 'bb.Box[casei].Map[predn] = bb.Box[casei].Map[predn] + weight', 'bb.Box[casei].Map[predn] = bb.Box[casei].Map[predn] + 1')
bad('C33', 'catballotbox.go', 'bb.Box[casei].Map[predn] = bb.Box[casei].Map[predn] + weight', 'bb.Box[casei].Map[predn] = weight')
bad('C33', 'catballotbox.go', '\tif _, ok := bb.Box[casei].Map[predn]; !ok {\n\t\tbb.Box[casei].Map[predn] = 0\n\t}\n', '\tif _, ok := bb.Box[casei].Map[predn]; !ok {\n\t\tbb.Box[casei].Map[predn] = weight\n\t}\n')
bad('C33', 'catballotbox.go', 'if v > votes || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {', 'if v > votes {')
bad('C33', 'catballotbox.go', 'if v > votes || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {', 'if v > votes || (v == votes && votes > 0 && k < predictedn) {')
bad('C33', 'catballotbox.go', 'if v > votes || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {', 'if v > votes+1 || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {')
bad('C33', 'catballotbox.go', '\t\t\tvotes = v\n', '\t\t\tvotes += v\n')
bad('C33', 'catballotbox.go', '\t\tpredicted = bb.Back[predictedn]\n', '\t\tpredicted = bb.Back[0]\n')
bad('C33', 'catballotbox.go', '\tvotes := 0.0\n', '\tvotes := 1.0\n')
bad('C33', 'catballotbox.go', '\tif votes > 0 {\n\t\tpredicted = bb', '\tif votes > 1 {\n\t\tpredicted = bb')
bad('C33', 'catballotbox.go', '\t\tpredicted = "NA"', '\t\tpredicted = bb.Back[predictedn]')
bad('C33', 'catballotbox.go', 'bb.Box[i].Map {', 'bb.Box[0].Map {')
bad('C33', 'catballotbox.go', '\t\t\ttotal[value]++\n\t\t\tif catfeature', '\t\t\tif catfeature', ('', '\t\t\t\tcorrect[value]++\n', '\t\t\t\tcorrect[value]++\n\t\t\t\ttotal[value]++\n'))
bad('C33', 'catballotbox.go', '\t\tif !feature.IsMissing(i) {\n\t\t\ttotal', '\t\tif predicted != "NA" && !feature.IsMissing(i) {\n\t\t\ttotal')
bad('C33', 'catballotbox.go', '\t\tif !feature.IsMissing(i) {\n\t\t\ttotal', '\t\t{\n\t\t\ttotal')
bad('C33', 'catballotbox.go', '\te /= float64(ncats)', '\te /= float64(len(bb.Back))')
bad('C33', 'catballotbox.go', '\te = 1.0 - e\n', '\te = 1.0 - e*e\n')
bad('C33', 'catballotbox.go', 'catfeature.NumToCat(value) == predicted', 'catfeature.NumToCat(value) != predicted')
bad('C33', 'catballotbox.go', '\t\te += float64(ncorrect) / float64(total[i])', '\t\te += float64(ncorrect) / float64(feature.Length()) * float64(i)')
bad('C33', 'catballotbox.go', '\tfor i := 0; i < size; i++ {\n\t\tbb.Box = append(bb.Box, NewCatBallot())', '\tballot := NewCatBallot()\n\tfor i := 0; i < size; i++ {\n\t\tbb.Box = append(bb.Box, ballot)')
bad('C33', 'catballotbox.go', '\tfor i := 0; i < size; i++ {\n\t\tbb.Box = append(bb.Box, NewCatBallot())', '\tvotes := make(map[int]float64)\n\tfor i := 0; i < size; i++ {\n\t\tbb.Box = append(bb.Box, &CatBallot{Map: votes})')
quiet('C33', 'catballotbox.go', '\tif _, ok := bb.Box[casei].Map[predn]; !ok {\n\t\tbb.Box[casei].Map[predn] = 0\n\t}\n\tbb.Box[casei].Map[predn] = bb.Box[casei].Map[predn] + weight\n', '\tbb.Box[casei].Map[predn] += weight\n')
quiet('C33', 'catballotbox.go', '\t\t\tpredictedn = k\n\t\t\tvotes = v\n', '\t\t\tpredictedn, votes = k, v\n')
quiet('C33', 'catballotbox.go', '\tif votes > 0 {\n\t\tpredicted = bb.Back[predictedn]\n\t} else {\n\t\tpredicted = "NA"\n\t}\n', '\tpredicted = "NA"\n\tif votes > 0 {\n\t\tpredicted = bb.Back[predictedn]\n\t}\n')
quiet('C33', 'catballotbox.go', '\t\tvalue := catfeature.Geti(i)\n\n\t\tpredicted := bb.Tally(i)\n\t\tif !feature.IsMissing(i) {\n\t\t\ttotal[value]++\n\t\t\tif catfeature.NumToCat(value) == predicted {\n\t\t\t\tcorrect[value]++\n\t\t\t}\n\n\t\t}\n', '\t\tif feature.IsMissing(i) {\n\t\t\tcontinue\n\t\t}\n\t\tvalue := catfeature.Geti(i)\n\t\tif bb.Tally(i) == catfeature.NumToCat(value) {\n\t\t\tcorrect[value]++\n\t\t}\n\t\ttotal[value]++\n')
quiet('C33', 'catballotbox.go', '\t\tif v > votes || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {\n', '\t\tif v < votes {\n\t\t\tcontinue\n\t\t}\n\t\tif v > votes || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {\n')
bad('C23', 'ordinaltarget.go', '	for k, v := range counts {\n		if v > max {\n			m = float64(k)', '	for k := f.nClass - 1; k >= 0; k-- {\n		v := counts[k]\n		if v > max {\n			m = float64(k)')
bad('C23', 'densecatfeature.go', '	for k, v := range counts {\n		if v > max {\n			m = k', '	for k := len(counts) - 1; k >= 0; k-- {\n		v := counts[k]\n		if v > max {\n			m = k')
quiet('C23', 'densecatfeature.go', '	for k, v := range counts {\n		if v > max {\n			m = k', '	for k := 0; k != len(counts); k++ {\n		v := counts[k]\n		if v > max {\n			m = k')
bad('C35', 'applyforest/applyforest.go', '\tfor _, tree := range forest.Trees {\n', '\tfor _, tree := range forest.Trees[1:] {\n')
bad('C35', 'applyforest/applyforest.go', '\t\ttree.Vote(data, bb)\n', '\t\ttree.Vote(data, bb)\n\t\tif tree.Weight > 1 {\n\t\t\ttree.Vote(data, bb)\n\t\t}\n')
bad('C35', 'applyforest/applyforest.go', '\t\ttree.Vote(data, bb)\n', '\t\tif tree.Root.Splitter != nil {\n\t\t\ttree.Vote(data, bb)\n\t\t}\n')
bad('C35', 'applyforest/applyforest.go', '\t\t\t\tactual = data.Data[targeti].GetStr(i)', '\t\t\t\tactual = data.Data[targeti].GetStr(i / 2)')
bad('C35', 'applyforest/applyforest.go', '\t\t\t\tactual = data.Data[targeti].GetStr(i)', '\t\t\t\tactual = data.Data[0].GetStr(i)')
bad('C35', 'applyforest/applyforest.go', '\t\t\tif sum || forest.Intercept != 0.0 {', '\t\t\tif sum || forest.Intercept > 0.0 {')
bad('C35', 'applyforest/applyforest.go', '\t\t\tif sum || forest.Intercept != 0.0 {', '\t\t\tif sum {')
bad('C35', 'applyforest/applyforest.go', 'numresult = bb.(*CloudForest.SumBallotBox).TallyNum(i) + forest.Intercept', 'numresult = bb.(*CloudForest.SumBallotBox).TallyNum(i)')
bad('C35', 'applyforest/applyforest.go', 'numresult = bb.(*CloudForest.NumBallotBox).TallyNum(i) + forest.Intercept', 'numresult = bb.(*CloudForest.NumBallotBox).TallyNum(i) * forest.Intercept')
bad('C35', 'applyforest/applyforest.go', '\t\t\t\tif expit {', '\t\t\t\tif expit && numresult > 0 {')
bad('C35', 'applyforest/applyforest.go', '\t\t\t\tresult = bb.Tally(i)\n', '\t\t\t\tresult = bb.Tally(len(data.CaseLabels) - 1 - i)\n')
bad('C35', 'applyforest/applyforest.go', '\t\t\t\tresult = fmt.Sprintf("%v", numresult)', '\t\t\t\tresult = fmt.Sprintf("%.4f", numresult)')
bad('C35', 'applyforest/applyforest.go', '"%v\\t%v\\t%v\\n", l, result, actual', '"%v\\t%v\\t%v\\n", l, actual, result')
bad('C35', 'applyforest/applyforest.go', '"%v\\t%v\\t%v\\n", l, result, actual', '"%v\\t%v %v\\n", l, result, actual')
bad('C35', 'applyforest/applyforest.go', '\t\tfor i, l := range data.CaseLabels {\n', '\t\tfor i, l := range data.CaseLabels {\n\t\t\tif bb.Tally(i) == "NA" {\n\t\t\t\tcontinue\n\t\t\t}\n')
bad('C35', 'applyforest/applyforest.go', '\tcase sum:\n', '\tcase sum || expit:\n')
bad('C35', 'applyforest/applyforest.go', '\tcase !cat && (num || strings', '\tcase num || !cat && (strings')
bad('C35', 'applyforest/applyforest.go', 'bb = CloudForest.NewSumBallotBox(data.Data[0].Length())', 'bb = CloudForest.NewSumBallotBox(len(data.Data))')
bad('C35', 'applyforest/applyforest.go', '\t\t\t\ttotal = box.Map[j]\n', '\t\t\t\ttotal = box.Map[i+0*j]\n')
bad('C35', 'applyforest/applyforest.go', '\t\t\t\ttotal = box.Map[j]\n', '\t\t\t\ttotal = box.Map[j] + cbb.Box[j].Map[j]\n')
bad('C35', 'applyforest/applyforest.go', 'data.CaseLabels[i]); err', 'data.CaseLabels[len(cbb.Box)-1-i]); err')
bad('C35', 'applyforest/applyforest.go', '\t\t\tfor j, _ := range cbb.CatMap.Back {\n', '\t\t\tfor j, _ := range cbb.CatMap.Back[1:] {\n')
bad('C35', 'applyforest/applyforest.go', '\tif *votefn != "" {', '\tif *votefn != "" && *predfn == "" {')
bad('C35', 'applyforest/applyforest.go', '\tif *predfn != "" {\n\t\tfmt.Printf("Outputting label', '\tif *predfn != "" && hasTarget {\n\t\tfmt.Printf("Outputting label')
quiet('C35', 'applyforest/applyforest.go', '\tfor _, tree := range forest.Trees {\n\t\ttree.Vote(data, bb)\n', '\tfor i := range forest.Trees {\n\t\tforest.Trees[i].Vote(data, bb)\n')
quiet('C35', 'applyforest/applyforest.go', '\t\t\tactual := "NA"\n\t\t\tif hasTarget {\n\t\t\t\tactual = data.Data[targeti].GetStr(i)\n\t\t\t}\n', '\t\t\tactual := ""\n\t\t\tif !hasTarget {\n\t\t\t\tactual = "NA"\n\t\t\t} else {\n\t\t\t\tactual = data.Data[targeti].GetStr(i)\n\t\t\t}\n')
quiet('C35', 'applyforest/applyforest.go', '\t\tfor i, l := range data.CaseLabels {\n\t\t\tactual', '\t\tshifted := sum || forest.Intercept != 0.0\n\t\tfor i, l := range data.CaseLabels {\n\t\t\tactual', ('', '\t\t\tif sum || forest.Intercept != 0.0 {', '\t\t\tif shifted {'))
quiet('C35', 'applyforest/applyforest.go', '\t\t\t\tnumresult := 0.0\n\t\t\t\tif sum {\n\t\t\t\t\tnumresult = bb.(*CloudForest.SumBallotBox).TallyNum(i) + forest.Intercept\n\t\t\t\t} else {\n\t\t\t\t\tnumresult = bb.(*CloudForest.NumBallotBox).TallyNum(i) + forest.Intercept\n\t\t\t\t}\n', '\t\t\t\tvar numresult float64\n\t\t\t\tif sum {\n\t\t\t\t\tnumresult = bb.(*CloudForest.SumBallotBox).TallyNum(i)\n\t\t\t\t} else {\n\t\t\t\t\tnumresult = bb.(*CloudForest.NumBallotBox).TallyNum(i)\n\t\t\t\t}\n\t\t\t\tnumresult = forest.Intercept + numresult\n')
quiet('C35', 'applyforest/applyforest.go', '\tvar bb CloudForest.VoteTallyer\n\tswitch {\n\tcase sum:\n', '\tvar bb CloudForest.VoteTallyer\n\tnCases := data.Data[0].Length()\n\tswitch {\n\tcase sum:\n', ('', 'NewCatBallotBox(data.Data[0].Length())', 'NewCatBallotBox(nCases)'))
quiet('C35', 'applyforest/applyforest.go', '\tcase !cat && (num || strings.HasPrefix(forest.Target, "N")):\n\t\tbb = CloudForest.NewNumBallotBox(data.Data[0].Length())\n\n\tdefault:\n\t\tbb = CloudForest.NewCatBallotBox(data.Data[0].Length())\n', '\tcase cat || !num && !strings.HasPrefix(forest.Target, "N"):\n\t\tbb = CloudForest.NewCatBallotBox(data.Data[0].Length())\n\n\tdefault:\n\t\tbb = CloudForest.NewNumBallotBox(data.Data[0].Length())\n')
quiet('C35', 'applyforest/applyforest.go', '\t\t\tif _, err := fmt.Fprintf(predfile, "%v\\t%v\\t%v\\n", l, result, actual); err', '\t\t\tif _, err := fmt.Fprintln(predfile, l+"\\t"+result+"\\t"+actual); err')
quiet('C35', 'applyforest/applyforest.go', '\t\t\tif _, err := fmt.Fprintf(predfile, "%v\\t%v\\t%v\\n", l, result, actual); err', '\t\t\tline := fmt.Sprintf("%s\\t%s\\t%s\\n", l, result, actual)\n\t\t\tif _, err := predfile.WriteString(line); err')
quiet('C35', 'applyforest/applyforest.go', '\t\t\t\ttotal := 0.0\n\t\t\t\ttotal = box.Map[j]\n\n\t\t\t\tif _, err := fmt.Fprintf(votefile, "\\t%v", total); err', '\t\t\t\tif _, err := fmt.Fprintf(votefile, "\\t%v", box.Map[j]); err')
quiet('C35', 'applyforest/applyforest.go', '\t\tfor i, box := range cbb.Box {\n', '\t\tfor i := range data.CaseLabels {\n\t\t\tbox := cbb.Box[i]\n')
quiet('C35', 'applyforest/applyforest.go', '\t\t\t\tresult = fmt.Sprintf("%v", numresult)', '\t\t\t\tresult = fmt.Sprint(numresult)')
quiet('C35', 'applyforest/applyforest.go', '\tvar bb CloudForest.VoteTallyer\n\tswitch {\n\tcase sum:\n\t\tbb = CloudForest.NewSumBallotBox(data.Data[0].Length())\n\n\tcase !cat && (num || strings.HasPrefix(forest.Target, "N")):\n\t\tbb = CloudForest.NewNumBallotBox(data.Data[0].Length())\n\n\tdefault:\n\t\tbb = CloudForest.NewCatBallotBox(data.Data[0].Length())\n\t}\n', '\tbb := newBallotBox(data.Data[0].Length(), sum, !cat && (num || strings.HasPrefix(forest.Target, "N")))\n', ('', 'func main() {', 'func newBallotBox(size int, sum, num bool) CloudForest.VoteTallyer {\n\tif sum {\n\t\treturn CloudForest.NewSumBallotBox(size)\n\t}\n\tif num {\n\t\treturn CloudForest.NewNumBallotBox(size)\n\t}\n\treturn CloudForest.NewCatBallotBox(size)\n}\n\nfunc main() {'))
quiet('C35', 'applyforest/applyforest.go', '\t\t\tresult := ""\n\n\t\t\tif sum || forest.Intercept != 0.0 {\n\t\t\t\tnumresult := 0.0\n\t\t\t\tif sum {\n\t\t\t\t\tnumresult = bb.(*CloudForest.SumBallotBox).TallyNum(i) + forest.Intercept\n\t\t\t\t} else {\n\t\t\t\t\tnumresult = bb.(*CloudForest.NumBallotBox).TallyNum(i) + forest.Intercept\n\t\t\t\t}\n\t\t\t\tif expit {\n\t\t\t\t\tnumresult = CloudForest.Expit(numresult)\n\t\t\t\t}\n\t\t\t\tresult = fmt.Sprintf("%v", numresult)\n\n\t\t\t} else {\n\t\t\t\tresult = bb.Tally(i)\n\t\t\t}\n', '\t\t\tresult := predicted(bb, i, sum, expit, forest.Intercept)\n', ('', 'func main() {', 'func predicted(bb CloudForest.VoteTallyer, i int, sum, expit bool, intercept float64) string {\n\tif !sum && intercept == 0.0 {\n\t\treturn bb.Tally(i)\n\t}\n\tvalue := intercept\n\tif sum {\n\t\tvalue += bb.(*CloudForest.SumBallotBox).TallyNum(i)\n\t} else {\n\t\tvalue += bb.(*CloudForest.NumBallotBox).TallyNum(i)\n\t}\n\tif expit {\n\t\tvalue = CloudForest.Expit(value)\n\t}\n\treturn fmt.Sprintf("%v", value)\n}\n\nfunc main() {'))
bad('C35', 'growforest/growforest.go', 'fmt.Fprintf(caseoobfile, "%v\\t%v\\t%v\\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i))', 'fmt.Fprintf(caseoobfile, "%v\\t%v\\t%v\\n", data.CaseLabels[i], oobVotes.Tally(i), targetf.GetStr(i))')
bad('C35', 'growforest/growforest.go', 'fmt.Fprintf(caseoobfile, "%v\\t%v\\t%v\\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i))', 'fmt.Fprintf(caseoobfile, "%v\\t%v\\t%v\\n", data.CaseLabels[unboostedTarget.Length()-1-i], oobVotes.Tally(i), unboostedTarget.GetStr(i))')
bad('C35', 'growforest/growforest.go', 'fmt.Fprintf(caseoobfile, "%v\\t%v\\t%v\\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i))', 'fmt.Fprintf(caseoobfile, "%v\\t%v\\t%v\\n", data.CaseLabels[i], oobVotes.Tally(i / 2), unboostedTarget.GetStr(i))')
bad('C35', 'growforest/growforest.go', 'for i := 0; i < unboostedTarget.Length(); i++ {\n\t\t\tif _, err := fmt.Fprintf(caseoobfile, "%v\\t%v\\t%v\\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i))', 'for i := 1; i < unboostedTarget.Length(); i++ {\n\t\t\tif _, err := fmt.Fprintf(caseoobfile, "%v\\t%v\\t%v\\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i))')
bad('C35', 'growforest/growforest.go', '\t\tfor _, tree := range trees {\n\t\t\ttree.Vote(testdata, bb)\n', '\t\tfor _, tree := range trees {\n\t\t\ttree.Vote(data, bb)\n')
bad('C35', 'growforest/growforest.go', '\t\tfor _, tree := range trees {\n\t\t\ttree.Vote(testdata, bb)\n', '\t\tfor _, tree := range trees[1:] {\n\t\t\ttree.Vote(testdata, bb)\n')
bad('C35', 'growforest/growforest.go', 'bb.TallyError(testtarget)', 'bb.TallyError(unboostedTarget)')
bad('C35', 'growforest/growforest.go', '\t\t\ttesttarget = testdata.Data[targeti]\n', '\t\t\ttesttarget = testdata.Data[data.Map[*targetname]]\n')
bad('C35', 'growforest/growforest.go', '\t\ttesttarget := unboostedTarget\n', '\t\ttesttarget := targetf\n')
bad('C35', 'growforest/growforest.go', '\t\t\t//regression\n\t\t\tbb = CloudForest.NewNumBallotBox(testdata.Data[0].Length())', '\t\t\t//regression\n\t\t\tbb = CloudForest.NewNumBallotBox(data.Data[0].Length())')
bad('C35', 'growforest/growforest.go', '\t\tif unboostedTarget.NCats() == 0 {\n\t\t\t//regression', '\t\tif unboostedTarget.NCats() <= 2 {\n\t\t\t//regression')
bad('C35', 'growforest/growforest.go', '\t\tfor _, tree := range trees {\n\t\t\ttree.Vote(testdata, bb)\n', '\t\tfor _, tree := range trees {\n\t\t\tif tree.Weight < 0 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\ttree.Vote(testdata, bb)\n')
quiet('C35', 'growforest/growforest.go', '\t\tfor _, tree := range trees {\n\t\t\ttree.Vote(testdata, bb)\n', '\t\tfor i := 0; i < len(trees); i++ {\n\t\t\ttrees[i].Vote(testdata, bb)\n')
quiet('C35', 'growforest/growforest.go', '\t\tif unboostedTarget.NCats() == 0 {\n\t\t\t//regression\n\t\t\tbb = CloudForest.NewNumBallotBox(testdata.Data[0].Length())\n\t\t} else {\n\t\t\t//classification\n\t\t\tbb = CloudForest.NewCatBallotBox(testdata.Data[0].Length())\n\t\t}', '\t\tntest := testdata.Data[0].Length()\n\t\tif unboostedTarget.NCats() != 0 {\n\t\t\t//classification\n\t\t\tbb = CloudForest.NewCatBallotBox(ntest)\n\t\t} else {\n\t\t\tbb = CloudForest.NewNumBallotBox(ntest)\n\t\t}')
quiet('C35', 'growforest/growforest.go', '\t\tfor i := 0; i < unboostedTarget.Length(); i++ {\n\t\t\tif _, err := fmt.Fprintf(caseoobfile, "%v\\t%v\\t%v\\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i))', '\t\tfor i, label := range data.CaseLabels {\n\t\t\ttally := oobVotes.Tally(i)\n\t\t\tif _, err := fmt.Fprintf(caseoobfile, "%v\\t%v\\t%v\\n", label, tally, unboostedTarget.GetStr(i))')
quiet('C35', 'growforest/growforest.go', 'fmt.Printf("Error: %v\\n", bb.TallyError(testtarget))', 'testerror := bb.TallyError(testtarget)\n\t\tfmt.Printf("Error: %v\\n", testerror)')
bad('C36', 'utils.go', '\tif _, ok := sc.Map[i][j]; !ok {\n\t\tsc.Map[i][j] = 0\n\t}\n\tsc.Map[i][j] = sc.Map[i][j] + val\n', '\tif _, ok := sc.Map[i][j]; !ok {\n\t\tsc.Map[i][j] = 0\n\t}\n\tsc.Map[i][j] = sc.Map[i][j] + 1\n')
bad('C36', 'utils.go', '\tif _, ok := sc.Map[i][j]; !ok {\n\t\tsc.Map[i][j] = 0\n\t}\n\tsc.Map[i][j] = sc.Map[i][j] + val\n', '\tif _, ok := sc.Map[i][j]; !ok {\n\t\tsc.Map[i][j] = 0\n\t}\n\tsc.Map[j][i] = sc.Map[i][j] + val\n')
bad('C36', 'utils.go', '\tif _, ok := sc.Map[i][j]; !ok {\n\t\tsc.Map[i][j] = 0\n\t}\n\tsc.Map[i][j] = sc.Map[i][j] + val\n', '\tif _, ok := sc.Map[i][j]; !ok {\n\t\tsc.Map[i][j] = 0\n\t}\n\tsc.Map[i][j] = val\n')
bad('C36', 'utils.go', '\tif _, ok := sc.Map[i][j]; !ok {\n\t\tsc.Map[i][j] = 0\n\t}\n\tsc.Map[i][j] = sc.Map[i][j] + val\n', '\tif _, ok := sc.Map[i][j]; ok {\n\t\tsc.Map[i][j] = 0\n\t}\n\tsc.Map[i][j] = sc.Map[i][j] + val\n')
bad('C36', 'utils.go', '\tif _, ok := sc.Map[i][j]; !ok {\n\t\tsc.Map[i][j] = 0\n\t}\n\tsc.Map[i][j] = sc.Map[i][j] + val\n', '\tsc.Map[i][j] |= val\n')
quiet('C36', 'utils.go', '\tif _, ok := sc.Map[i][j]; !ok {\n\t\tsc.Map[i][j] = 0\n\t}\n\tsc.Map[i][j] = sc.Map[i][j] + val\n', '\tsc.Map[i][j] += val\n')
quiet('C36', 'utils.go', '\tif _, ok := sc.Map[i][j]; !ok {\n\t\tsc.Map[i][j] = 0\n\t}\n\tsc.Map[i][j] = sc.Map[i][j] + val\n', '\trow := sc.Map[i]\n\tn := row[j]\n\trow[j] = n + val\n')
bad('C36', 'utils.go', '\tif v, ok := sc.Map[i]; !ok || v == nil {\n\t\tsc.Map[i] = make(map[int]int, 0)\n\t}\n', '\tif v, ok := sc.Map[i]; ok || v == nil {\n\t\tsc.Map[i] = make(map[int]int, 0)\n\t}\n')
bad('C36', 'utils.go', '\tif v, ok := sc.Map[i]; !ok || v == nil {\n\t\tsc.Map[i] = make(map[int]int, 0)\n\t}\n', '\tif v, ok := sc.Map[i]; len(v) < j || !ok {\n\t\tsc.Map[i] = make(map[int]int, 0)\n\t}\n')
quiet('C36', 'utils.go', '\tif v, ok := sc.Map[i]; !ok || v == nil {\n\t\tsc.Map[i] = make(map[int]int, 0)\n\t}\n', '\tif sc.Map[i] == nil {\n\t\tsc.Map[i] = make(map[int]int, 0)\n\t}\n')
bad('C36', 'utils.go', '\tif sc.Map == nil {\n\t\tsc.Map = make(map[int]map[int]int, 0)\n\t}\n\n\tif v, ok', '\tif len(sc.Map) == 0 || val < 0 {\n\t\tsc.Map = make(map[int]map[int]int, 0)\n\t}\n\n\tif v, ok')
bad('C36', 'utils.go', '\t\tfor j := range sc.Map[i] {\n\t\t\tcols = append(cols, j)\n\t\t}\n', '\t\tfor j := range sc.Map[i] {\n\t\t\tif j != i {\ncols = append(cols, j)\n}\n\t\t}\n')
bad('C36', 'utils.go', '\t\tfor j := range sc.Map[i] {\n\t\t\tcols = append(cols, j)\n\t\t}\n', '\t\tfor j := range sc.Map[rows[0]] {\n\t\t\tcols = append(cols, j)\n\t\t}\n')
bad('C36', 'utils.go', '\t\tfor j := range sc.Map[i] {\n\t\t\tcols = append(cols, j)\n\t\t}\n', '\t\tfor j := range sc.Map[i] {\n\t\t\tcols = append(cols, j)\nif len(cols) > 1000000 {\nbreak\n}\n\t\t}\n')
bad('C36', 'utils.go', 'fmt.Fprintf(writer, "%v\\t%v\\t%v\\n", i, j, sc.Map[i][j])', 'fmt.Fprintf(writer, "%v\\t%v\\t%v\\n", j, i, sc.Map[i][j])')
bad('C36', 'utils.go', 'fmt.Fprintf(writer, "%v\\t%v\\t%v\\n", i, j, sc.Map[i][j])', 'fmt.Fprintf(writer, "%v\\t%v\\t%v\\n", i, j, sc.Map[j][i])')
bad('C36', 'utils.go', 'fmt.Fprintf(writer, "%v\\t%v\\t%v\\n", i, j, sc.Map[i][j])', 'fmt.Fprintf(writer, "%v\\t%v\\t%03d\\n", i, j, sc.Map[i][j])')
quiet('C36', 'utils.go', 'fmt.Fprintf(writer, "%v\\t%v\\t%v\\n", i, j, sc.Map[i][j])', 'fmt.Fprintf(writer, "%d\\t%d\\t%d\\n", i, j, sc.Map[i][j])')
bad('C36', 'utils.go', '\t\tfor _, j := range cols {\n', '\t\tfor _, j := range cols[:] {\n\t\t\tif j > i {\n\t\t\t\tbreak\n\t\t\t}\n')
bad('C36', 'utils.go', '\t\tfor _, j := range cols {\n', '\t\tfor _, j := range cols {\n\t\t\tif j == i {\n\t\t\t\tcontinue\n\t\t\t}\n')
quiet('C36', 'utils.go', '\t\tfor _, j := range cols {\n', '\t\tfor _, j := range cols {\n\t\t\tif sc.Map[i][j] == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n')
bad('C36', 'utils.go', '\tfor _, i := range rows {\n', '\tfor _, i := range rows[1:] {\n')
bad('C36', 'utils.go', '\tfor _, i := range rows {\n', '\tfor _, i := range rows {\n\t\tif len(sc.Map[i]) < 2 {\n\t\t\tcontinue\n\t\t}\n')
quiet('C36', 'utils.go', '\tfor _, i := range rows {\n', '\tfor n := 0; n < len(rows); n++ {\n\t\ti := rows[n]\n')
quiet('C36', 'utils.go', '\t\tcols := make([]int, 0, len(sc.Map[i]))\n\t\tfor j := range sc.Map[i] {\n\t\t\tcols = append(cols, j)\n\t\t}\n\t\tsort.Ints(cols)\n', '\t\tcols := columns(sc.Map[i])\n', ('', '//WriteTsv writes the non', 'func columns(row map[int]int) []int {\n\tcols := make([]int, 0, len(row))\n\tfor j := range row {\n\t\tcols = append(cols, j)\n\t}\n\tsort.Ints(cols)\n\treturn cols\n}\n\n//WriteTsv writes the non'))
bad('C36', 'tree.go', '\t\t\tfor _, c := range cases {\n\t\t\t\tfbycase.Add(c, fm.Map[n.Splitter.Feature], 1)\n\t\t\t}\n', '\t\t\tfor _, c := range cases {\n\t\t\t\tfbycase.Add(c, fm.Map[n.Splitter.Feature], depth)\n\t\t\t}\n')
bad('C36', 'tree.go', '\t\t\tfor _, c := range cases {\n\t\t\t\tfbycase.Add(c, fm.Map[n.Splitter.Feature], 1)\n\t\t\t}\n', '\t\t\tfor _, c := range cases {\n\t\t\t\tfbycase.Add(fm.Map[n.Splitter.Feature], c, 1)\n\t\t\t}\n')
bad('C36', 'tree.go', '\t\t\tfor _, c := range cases {\n\t\t\t\tfbycase.Add(c, fm.Map[n.Splitter.Feature], 1)\n\t\t\t}\n', '\t\t\tfor _, c := range cases[:1] {\n\t\t\t\tfbycase.Add(c, fm.Map[n.Splitter.Feature], 1)\n\t\t\t}\n')
bad('C36', 'tree.go', '\t\t\tfor _, c := range cases {\n\t\t\t\tfbycase.Add(c, fm.Map[n.Splitter.Feature], 1)\n\t\t\t}\n', '\t\t\tfor _, c := range cases {\n\t\t\t\tfbycase.Add(c, n.Featurei, 1)\n\t\t\t}\n')
bad('C36', 'tree.go', '\t\t\tfor _, c := range cases {\n\t\t\t\tfbycase.Add(c, fm.Map[n.Splitter.Feature], 1)\n\t\t\t}\n', '\t\t\tfor _, c := range cases {\n\t\t\t\tif c == 0 {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tfbycase.Add(c, fm.Map[n.Splitter.Feature], 1)\n\t\t\t}\n')
bad('C36', 'tree.go', '\t\t\tfor _, c := range cases {\n\t\t\t\tfbycase.Add(c, fm.Map[n.Splitter.Feature], 1)\n\t\t\t}\n', '\t\t\tfor _, c := range cases {\n\t\t\t\tfbycase.Add(c, fm.Map[n.Splitter.Feature], 1)\n\t\t\t\tif n.Missing != nil {\n\t\t\t\t\tfbycase.Add(c, fm.Map[n.Splitter.Feature], 1)\n\t\t\t\t}\n\t\t\t}\n')
quiet('C36', 'tree.go', '\t\t\tfor _, c := range cases {\n\t\t\t\tfbycase.Add(c, fm.Map[n.Splitter.Feature], 1)\n\t\t\t}\n', '\t\t\tfeature := fm.Map[n.Splitter.Feature]\n\t\t\tfor i := 0; i < len(cases); i++ {\n\t\t\t\tfbycase.Add(cases[i], feature, 1)\n\t\t\t}\n')
bad('C36', 'tree.go', '\t\tif fbycase != nil && n.Splitter != nil {', '\t\tif fbycase != nil && n.Splitter != nil && n.Left != nil && n.Right != nil && n.Missing == nil {')
bad('C36', 'tree.go', '\t\tif fbycase != nil && n.Splitter != nil {', '\t\tif fbycase != nil && n.Splitter != nil && depth > 0 {')
bad('C36', 'tree.go', '\t\tif fbycase != nil && n.Splitter != nil {', '\t\tif fbycase != nil && n.Splitter != nil && n.Splitter.Numerical {')
quiet('C36', 'tree.go', '\t\tif fbycase != nil && n.Splitter != nil {', '\t\tif n.Splitter != nil && fbycase != nil {')
quiet('C36', 'tree.go', "\t\tif fbycase != nil && n.Splitter != nil { //I'm not in a leaf node?\n", '\t\tif fbycase != nil && n.Splitter != nil {\n')
quiet('C36', 'tree.go', "\t\tif fbycase != nil && n.Splitter != nil { //I'm not in a leaf node?\n", '\t\tif fbycase == nil || n.Splitter == nil {\n\t\t\treturn\n\t\t} else {\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := j; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n', '\t\t\t\t\t\tfor j := 1; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[j], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], len(leaves))\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(j, k, 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tif j == 5 {\n\t\t\t\t\t\t\t\tcontinue\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tif j == k {\n\t\t\t\t\t\t\t\t\tcontinue\n\t\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n', '\t\t\t\t\t\tif len(leaf.Cases) > 1 {\n\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n}\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n')
quiet('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n', '\t\t\t\t\t\tfor _, a := range leaf.Cases {\n\t\t\t\t\t\t\tfor _, b := range leaf.Cases {\n\t\t\t\t\t\t\t\tcounts.Add(a, b, 1)\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n')
quiet('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[k], leaf.Cases[j], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n')
quiet('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\tfor j := 0; j < len(leaf.Cases); j++ {\n\t\t\t\t\t\t\tfor k := 0; k < len(leaf.Cases); k++ {\n\n\t\t\t\t\t\t\t\tcounts.Add(leaf.Cases[j], leaf.Cases[k], 1)\n\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n', '\t\t\t\t\t\tcountPairs(counts, leaf.Cases)\n', ('', 'func main() {', 'func countPairs(counts *CloudForest.SparseCounter, cases []int) {\n\tfor _, a := range cases {\n\t\tfor _, b := range cases {\n\t\t\tcounts.Add(a, b, 1)\n\t\t}\n\t}\n}\n\nfunc main() {'))
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\tfor _, leaf := range leaves {\n', '\t\t\t\t\tfor _, leaf := range leaves[1:] {\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\tfor _, leaf := range leaves {\n', '\t\t\t\t\tfor _, leaf := range leaves {\n\t\t\t\t\t\tif leaf.Pred == "" {\n\t\t\t\t\t\t\tcontinue\n\t\t\t\t\t\t}\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\tfor _, leaf := range leaves {\n', '\t\t\t\t\tfor _, leaf := range leaves {\n\t\t\t\t\t\tif leaf.Pred == "NA" {\n\t\t\t\t\t\t\tbreak\n\t\t\t\t\t\t}\n')
quiet('C36', 'leafcount/leafcount.go', '\t\t\t\t\tfor _, leaf := range leaves {\n', '\t\t\t\t\tfor n := 0; n < len(leaves); n++ {\n\t\t\t\t\t\tleaf := leaves[n]\n')
quiet('C36', 'leafcount/leafcount.go', '\t\t\t\t\tfor _, leaf := range leaves {\n', '\t\t\t\t\tfor n := range leaves {\n\t\t\t\t\t\tleaf := &leaves[n]\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\tfor i := 0; i < len(forest.Trees); i++ {\n', '\t\t\t\tfor i := 1; i < len(forest.Trees); i++ {\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\tfor i := 0; i < len(forest.Trees); i++ {\n', '\t\t\t\tfor i := 0; i < len(forest.Trees)-1; i++ {\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\tfor i := 0; i < len(forest.Trees); i++ {\n', '\t\t\t\tfor i := 0; i < len(forest.Trees); i++ {\n\t\t\t\t\tif forest.Trees[i].Weight < 0 {\n\t\t\t\t\t\tcontinue\n\t\t\t\t\t}\n')
bad('C36', 'leafcount/leafcount.go', 'forest.Trees[i].GetLeaves(data, caseFeatureCounts)', 'forest.Trees[0].GetLeaves(data, caseFeatureCounts)')
bad('C36', 'leafcount/leafcount.go', 'forest.Trees[i].GetLeaves(data, caseFeatureCounts)', 'forest.Trees[i].GetLeaves(data, nil)')
bad('C36', 'leafcount/leafcount.go', 'forest.Trees[i].GetLeaves(data, caseFeatureCounts)', 'forest.Trees[i].GetLeaves(data, counts)')
bad('C36', 'leafcount/leafcount.go', 'forest.Trees[i].Root.Climb(', 'forest.Trees[0].Root.Climb(')
bad('C36', 'leafcount/leafcount.go', 'if *soutf != "" {\n\t\t\t\t\t\tforest', 'if *soutf != "" && i > 0 {\n\t\t\t\t\t\tforest')
bad('C36', 'leafcount/leafcount.go', 'if *soutf != "" {\n\t\t\t\t\t\tforest', 'if *soutf != "" && *boutf != "" {\n\t\t\t\t\t\tforest')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\t\t\tsplits[name] = append(splits[name], split)\n', '\t\t\t\t\t\t\t\tsplits[split] = append(splits[split], name)\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\t\t\tsplits[name] = append(splits[name], split)\n', '\t\t\t\t\t\t\t\tsplits[name] = append([]string{}, split)\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\t\t\tsplits[name] = append(splits[name], split)\n', '\t\t\t\t\t\t\t\tsplits[name] = append(splits[name], name+split)\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\t\t\tsplits[name] = append(splits[name], split)\n', '\t\t\t\t\t\t\t\tif len(splits[name]) < 1000 {\n\t\t\t\t\t\t\t\tsplits[name] = append(splits[name], split)\n}\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\t\t\tsplits[name] = append(splits[name], split)\n', '\t\t\t\t\t\t\t\tsplits[name] = append(splits[name], split)\nif n.Missing != nil {\n\t\t\t\t\t\t\t\tsplits[name] = append(splits[name], split)\n}\n')
bad('C36', 'leafcount/leafcount.go', 'split = fmt.Sprintf("%v", n.Splitter.Value)', 'split = fmt.Sprintf("%.4f", n.Splitter.Value)')
bad('C36', 'leafcount/leafcount.go', 'split = fmt.Sprintf("%v", n.Splitter.Value)', 'split = n.Pred')
bad('C36', 'leafcount/leafcount.go', 'strings.Join(keys, ",")', 'strings.Join(keys, "")')
bad('C36', 'leafcount/leafcount.go', 'strings.Join(keys, ",")', 'keys[0]')
bad('C36', 'leafcount/leafcount.go', 'switch n.Splitter.Numerical {', 'switch n.Missing == nil {')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\t\t\t_, ok := splits[name]\n\t\t\t\t\t\t\t\tif !ok {', '\t\t\t\t\t\t\t\t_, ok := splits[name]\n\t\t\t\t\t\t\t\tif ok {')
bad('C36', 'leafcount/leafcount.go', 'if n.Splitter != nil {\n\t\t\t\t\t\t\t\tsplitsMutex', 'if n.Splitter != nil && n.Left != nil && n.Left.Splitter == nil {\n\t\t\t\t\t\t\t\tsplitsMutex')
quiet('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\t\t\t_, ok := splits[name]\n\t\t\t\t\t\t\t\tif !ok {\n\t\t\t\t\t\t\t\t\tsplits[name] = make([]string, 0, 10)\n\t\t\t\t\t\t\t\t}\n', '')
quiet('C36', 'leafcount/leafcount.go', '\t\t\t\t\t\t\t\tsplit := ""\n\t\t\t\t\t\t\t\tswitch n.Splitter.Numerical {\n\t\t\t\t\t\t\t\tcase true:\n\t\t\t\t\t\t\t\t\tsplit = fmt.Sprintf("%v", n.Splitter.Value)\n\t\t\t\t\t\t\t\tcase false:\n\t\t\t\t\t\t\t\t\tkeys := make([]string, 0, len(n.Splitter.Left))\n\t\t\t\t\t\t\t\t\tfor k := range n.Splitter.Left {\n\t\t\t\t\t\t\t\t\t\tkeys = append(keys, k)\n\t\t\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t\t\tsort.Strings(keys)\n\t\t\t\t\t\t\t\t\tsplit = strings.Join(keys, ",")\n\t\t\t\t\t\t\t\t}\n', '\t\t\t\t\t\t\t\tsplit := describe(n.Splitter)\n', ('', 'func main() {', 'func describe(s *CloudForest.Splitter) string {\n\tif s.Numerical {\n\t\treturn fmt.Sprint(s.Value)\n\t}\n\tvar keys []string\n\tfor k := range s.Left {\n\t\tkeys = append(keys, k)\n\t}\n\tsort.Strings(keys)\n\treturn strings.Join(keys, ",")\n}\n\nfunc main() {'))
quiet('C36', 'leafcount/leafcount.go', 'if n.Splitter != nil {\n\t\t\t\t\t\t\t\tsplitsMutex', 'if n.Splitter == nil {\nreturn\n}\n{\n\t\t\t\t\t\t\t\tsplitsMutex')
bad('C36', 'leafcount/leafcount.go', '\tcounts.WriteTsv(outfile)', '\tcaseFeatureCounts.WriteTsv(outfile)')
bad('C36', 'leafcount/leafcount.go', 'caseFeatureCounts.WriteTsv(boutfile)', 'counts.WriteTsv(boutfile)')
bad('C36', 'leafcount/leafcount.go', 'caseFeatureCounts.WriteTsv(boutfile)', 'caseFeatureCounts.WriteTsv(outfile)')
bad('C36', 'leafcount/leafcount.go', 'os.Create(*outf)', 'os.Create(*outf+*boutf)')
bad('C36', 'leafcount/leafcount.go', '\tif *boutf != "" {\n\t\tlog', '\tif *boutf != "" && *soutf == "" {\n\t\tlog')
bad('C36', 'leafcount/leafcount.go', '\tif *boutf != "" {\n\t\tcase', '\tif *boutf != "" && threads == 1 {\n\t\tcase')
bad('C36', 'leafcount/leafcount.go', 'os.Open(fn)', 'os.Open(files[len(fn)%1])')
bad('C36', 'leafcount/leafcount.go', 'LoadAFM(*fm)', 'LoadAFM(*fm + "2")')
bad('C36', 'leafcount/leafcount.go', '\t\tfor _, fn := range files {\n', '\t\tfor _, fn := range files[1:] {\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\tfileChan <- fn\n', '\t\t\t_ = fn\n\t\t\tfileChan <- files[0]\n')
bad('C36', 'leafcount/leafcount.go', '\t\t\tfileChan <- fn\n', '\t\t\tif fn != "" {\n\t\t\t\tfileChan <- fn\n\t\t\t}\n')
bad('C36', 'leafcount/leafcount.go', 'strings.Split(*rf, ",")', 'strings.SplitN(*rf, ",", 2)')
bad('C36', 'leafcount/leafcount.go', '\t\t\t\tlog.Print("Forest has ", len', '\t\t\t\tif len(forest.Trees) < 2 {\n\t\t\t\t\tdoneChan <- 1\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tlog.Print("Forest has ", len')
quiet('C36', 'leafcount/leafcount.go', '\t\tfor _, fn := range files {\n\t\t\tfileChan <- fn\n\t\t}\n', '\t\tfor i := range files {\n\t\t\tfileChan <- files[i]\n\t\t}\n')
quiet('C36', 'leafcount/leafcount.go', '\t\t\t\tfor i := 0; i < len(forest.Trees); i++ {\n', '\t\t\t\ttrees := forest.Trees\n\t\t\t\tfor i := range trees {\n')
quiet('C36', 'leafcount/leafcount.go', '\t\t\tfor {\n\t\t\t\tfn := <-fileChan\n\n\t\t\t\tforestfile', '\t\t\tfor fn := range fileChan {\n\t\t\t\tforestfile')
bad('C37', 'featurematrix.go', '\tvals = append(vals, ".")\n', '')
bad('C37', 'featurematrix.go', '\tvals = append(vals, ".")\n', '\tvals = append(vals, "N:")\n')
bad('C37', 'featurematrix.go', 'vals = append(vals, fm.CaseLabels[cases[i]])', 'vals = append(vals, fm.CaseLabels[i])')
bad('C37', 'featurematrix.go', '\tfor i := 0; i < len(cases); i++ {\n\t\tvals = append(vals, fm.CaseLabels[cases[i]])', '\tfor i := len(cases) - 1; i >= 0; i-- {\n\t\tvals = append(vals, fm.CaseLabels[cases[i]])')
bad('C37', 'featurematrix.go', '\tfor i := 0; i < len(cases); i++ {\n\t\tvals = append(vals, fm.CaseLabels[cases[i]])', '\tfor i := 1; i < len(cases); i++ {\n\t\tvals = append(vals, fm.CaseLabels[cases[i]])')
bad('C37', 'featurematrix.go', 'vals = append(vals, fm.Data[i].GetStr(cases[j]))', 'vals = append(vals, fm.Data[i].GetStr(j))')
bad('C37', 'featurematrix.go', 'vals = append(vals, fm.Data[i].GetStr(cases[j]))', 'vals = append(vals, fm.Data[0].GetStr(cases[j]))')
bad('C37', 'featurematrix.go', 'vals = append(vals, fm.Data[i].GetStr(cases[j]))', 'if !fm.Data[i].IsMissing(cases[j]) {\nvals = append(vals, fm.Data[i].GetStr(cases[j]))\n}')
bad('C37', 'featurematrix.go', 'vals = append(vals, fm.Data[i].GetStr(cases[j]))', 'if fm.Data[i].IsMissing(cases[j]) {\nvals = append(vals, "NA")\ncontinue\n}\nvals = append(vals, fm.Data[i].GetStr(cases[0]))')
bad('C37', 'featurematrix.go', 'vals = append(vals, fm.Data[i].GetName())', 'vals = append(vals, strings.ToUpper(fm.Data[i].GetName()))')
bad('C37', 'featurematrix.go', 'vals = append(vals, fm.Data[i].GetName())', 'vals = append(vals, fm.Data[len(fm.Data)-1-i].GetName())')
bad('C37', 'featurematrix.go', '\t\tvals = vals[0:0]\n', '')
bad('C37', 'featurematrix.go', '\t\tvals = vals[0:0]\n', '\t\tvals = vals[0:1]\n')
bad('C37', 'featurematrix.go', '\tfor i := 0; i < len(fm.Data); i++ {\n\t\tvals = vals', '\tfor i := 0; i < len(fm.Data)-1; i++ {\n\t\tvals = vals')
bad('C37', 'featurematrix.go', '\tfor i := 0; i < len(fm.Data); i++ {\n\t\tvals = vals', '\tfor i := 0; i < len(fm.Data); i++ {\n\t\tif i > 0 && fm.Data[i].GetName() == fm.Data[i-1].GetName() {\n\t\t\tcontinue\n\t\t}\n\t\tvals = vals')
bad('C37', 'featurematrix.go', '\t\tvals = append(vals, fm.Data[i].GetName())\n', '\t\tvals = append(vals, fm.Data[i].GetName())\n\t\tif fm.Data[i].NCats() == 1 {\n\t\t\tvals = append(vals, ".")\n\t\t}\n')
bad('C37', 'featurematrix.go', '\t\t_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t}', '\t\t_, err = fmt.Fprintln(w, strings.Join(vals, ","))\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t}')
bad('C37', 'featurematrix.go', '\t\t_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t}', '\t\t_, err = fmt.Fprint(w, strings.Join(vals, "\\t"))\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t}')
bad('C37', 'featurematrix.go', '\t\t_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t}', '\t\tif len(vals) > 2 {\n\t\t_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))\n\t\t}\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t}')
bad('C37', 'featurematrix.go', '\t\t_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t}', '\t\t_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\t\tif i == 255 {\n\t\t\treturn\n\t\t}\n\t}')
quiet('C37', 'featurematrix.go', '\tvals = append(vals, ".")\n\tfor i := 0; i < len(cases); i++ {\n\t\tvals = append(vals, fm.CaseLabels[cases[i]])\n\t}\n', '\tvals = append(vals, ".")\n\tfor _, c := range cases {\n\t\tvals = append(vals, fm.CaseLabels[c])\n\t}\n')
quiet('C37', 'featurematrix.go', '\t\tvals = vals[0:0]\n\t\tvals = append(vals, fm.Data[i].GetName())\n\t\tfor j := 0; j < len(cases); j++ {\n\t\t\tvals = append(vals, fm.Data[i].GetStr(cases[j]))\n\t\t}\n', '\t\tf := fm.Data[i]\n\t\tvals := make([]string, len(cases)+1)\n\t\tvals[0] = f.GetName()\n\t\tfor j, c := range cases {\n\t\t\tvals[j+1] = f.GetStr(c)\n\t\t}\n')
quiet('C37', 'featurematrix.go', '\t\tvals = vals[0:0]\n\t\tvals = append(vals, fm.Data[i].GetName())\n\t\tfor j := 0; j < len(cases); j++ {\n\t\t\tvals = append(vals, fm.Data[i].GetStr(cases[j]))\n\t\t}\n\n\t\t_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n', '\t\tif _, err = io.WriteString(w, fm.Data[i].GetName()); err != nil {\n\t\t\treturn\n\t\t}\n\t\tfor j := 0; j < len(cases); j++ {\n\t\t\tif _, err = fmt.Fprintf(w, "\\t%v", fm.Data[i].GetStr(cases[j])); err != nil {\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n\t\tif _, err = fmt.Fprint(w, "\\n"); err != nil {\n\t\t\treturn\n\t\t}\n')
quiet('C37', 'featurematrix.go', '\t\tvals = append(vals, fm.Data[i].GetName())\n\t\tfor j := 0; j < len(cases); j++ {\n\t\t\tvals = append(vals, fm.Data[i].GetStr(cases[j]))\n\t\t}\n\n\t\t_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))\n', '\t\t_, err = fmt.Fprintln(w, rowOf(fm.Data[i], cases, vals))\n', ('', '//WriteCases writes', 'func rowOf(f Feature, cases []int, vals []string) string {\n\tvals = append(vals[:0], f.GetName())\n\tfor _, c := range cases {\n\t\tvals = append(vals, f.GetStr(c))\n\t}\n\treturn strings.Join(vals, "\\t")\n}\n\n//WriteCases writes'))
quiet('C37', 'featurematrix.go', '\t\t_, err = fmt.Fprintln(w, strings.Join(vals, "\\t"))\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t}', '\t\tif _, err = fmt.Fprintf(w, "%s\\n", strings.Join(vals, "\\t")); err != nil {\n\t\t\tbreak\n\t\t}\n\n\t}')
bad('C37', 'featurematrix.go', '\t\t\tfm.Data[i].Append(v)\n', '\t\t\tif v != "" {\n\t\t\t\tfm.Data[i].Append(v)\n\t\t\t}\n')
bad('C37', 'featurematrix.go', '\t\t\tfm.Data[i].Append(v)\n', '\t\t\tfm.Data[len(record)-1-i].Append(v)\n')
bad('C37', 'featurematrix.go', '\t\t\tfm.Data[i].Append(v)\n', '\t\t\t_ = v\n\t\t\tfm.Data[i].Append(record[0])\n')
bad('C37', 'featurematrix.go', '\t\t\tfm.Data[i].Append(v)\n', '\t\t\tfm.Data[i].Append(strings.TrimSpace(v))\n')
bad('C37', 'featurematrix.go', '\t\t\tcaselabel = record[0]\n\t\t\trecord = record[1:]\n', '\t\t\tcaselabel = record[0]\n')
bad('C37', 'featurematrix.go', '\t\t\tcaselabel = record[0]\n\t\t\trecord = record[1:]\n', '\t\t\trecord = record[1:]\n\t\t\tcaselabel = record[0]\n')
bad('C37', 'featurematrix.go', '\t\tif rowlabels {\n\t\t\tcaselabel', '\t\tif rowlabels && count > 0 {\n\t\t\tcaselabel')
bad('C37', 'featurematrix.go', '\t\tif rowlabels {\n\t\t\tcaselabel', '\t\tif !rowlabels {\n\t\t\tcaselabel')
bad('C37', 'featurematrix.go', '\t\tfm.CaseLabels = append(fm.CaseLabels, caselabel)\n\n\t\tfor i', '\t\t_ = caselabel\n\t\tfor i')
bad('C37', 'featurematrix.go', '\t\tfm.CaseLabels = append(fm.CaseLabels, caselabel)\n\n\t\tfor i', '\t\tif caselabel != "" {\n\t\tfm.CaseLabels = append(fm.CaseLabels, caselabel)\n\t\t}\n\n\t\tfor i')
bad('C37', 'featurematrix.go', '\t\tcount++\n\t}\n\treturn\n}\n\n//Parse an AFM', '\t\tcount += 2\n\t}\n\treturn\n}\n\n//Parse an AFM')
bad('C37', 'featurematrix.go', '\tcount := 0\n\tfor {\n\t\trecord, err := data.Read()', '\tcount := 1\n\tfor {\n\t\trecord, err := data.Read()')
bad('C37', 'featurematrix.go', '\t\tfor i, v := range record {\n\t\t\tfm', '\t\tif len(record) < len(fm.Data) {\n\t\t\tcontinue\n\t\t}\n\t\tfor i, v := range record {\n\t\t\tfm')
bad('C37', 'featurematrix.go', '\t\tfor i, v := range record {\n\t\t\tfm', '\t\tfor i, v := range record[:len(record)-1] {\n\t\t\tfm')
bad('C37', 'featurematrix.go', '\t\tcount++\n\t}\n\treturn\n}\n\n//Parse an AFM', '\t\tcount++\n\t\tif count == 65536 {\n\t\t\tbreak\n\t\t}\n\t}\n\treturn\n}\n\n//Parse an AFM')
bad('C37', 'featurematrix.go', '\t\trecord, err := data.Read()\n\t\tif err == io.EOF {\n\t\t\tbreak\n\t\t} else if err != nil {', '\t\trecord, err := data.Read()\n\t\tif err == nil && record[0] == "" {\n\t\t\trecord, err = data.Read()\n\t\t}\n\t\tif err == io.EOF {\n\t\t\tbreak\n\t\t} else if err != nil {')
quiet('C37', 'featurematrix.go', '\t\tcaselabel := fmt.Sprintf("%v", count)\n\t\tif rowlabels {\n\t\t\tcaselabel = record[0]\n\t\t\trecord = record[1:]\n\t\t}\n', '\t\tvar caselabel string\n\t\tif !rowlabels {\n\t\t\tcaselabel = fmt.Sprint(count)\n\t\t} else {\n\t\t\tcaselabel, record = record[0], record[1:]\n\t\t}\n')
quiet('C37', 'featurematrix.go', '\t\tfor i, v := range record {\n\t\t\tfm.Data[i].Append(v)\n\t\t}\n', '\t\tfm.appendRecord(record)\n', ('', '//LoadCases will', 'func (fm *FeatureMatrix) appendRecord(record []string) {\n\tfor i := 0; i < len(record); i++ {\n\t\tfm.Data[i].Append(record[i])\n\t}\n}\n\n//LoadCases will'))
quiet('C37', 'featurematrix.go', '\t\tfm.CaseLabels = append(fm.CaseLabels, caselabel)\n\n\t\tfor i, v := range record {\n\t\t\tfm.Data[i].Append(v)\n\t\t}\n', '\t\tfor i, v := range record {\n\t\t\tfm.Data[i].Append(v)\n\t\t}\n\t\tfm.CaseLabels = append(fm.CaseLabels, caselabel)\n')
bad('C37', 'featurematrix.go', '\t\t\tf.Append(record[i])\n\n\t\t}\n\t\treturn f\n\n\tdefault', '\t\t\tf.Append(record[len(record)-i])\n\n\t\t}\n\t\treturn f\n\n\tdefault')
bad('C37', 'featurematrix.go', '\t\tfor i := 1; i < len(record); i++ {\n\t\t\tf.Append(record[i])\n\n\t\t}\n\t\treturn f\n\n\tdefault', '\t\tfor i := 1; i < capacity-1; i++ {\n\t\t\tf.Append(record[i])\n\n\t\t}\n\t\treturn f\n\n\tdefault')
bad('C37', 'featurematrix.go', '\tswitch record[0][0:2] {\n\tcase "N:":', '\tswitch record[0][0:2] {\n\tcase "N:", "R:":')
bad('C37', 'featurematrix.go', '\tswitch record[0][0:2] {\n\tcase "N:":', '\tswitch strings.ToUpper(record[0][0:2]) {\n\tcase "N:":')
bad('C37', 'featurematrix.go', '\tswitch record[0][0:2] {\n\tcase "N:":', '\tswitch record[0][0:1] {\n\tcase "N":')
bad('C37', 'featurematrix.go', '\t\t\tmake([]bool, 0, capacity),\n\t\t\trecord[0],\n\t\t\tfalse}\n\t\tf.NumData', '\t\t\tmake([]bool, 0, capacity),\n\t\t\trecord[0][2:],\n\t\t\tfalse}\n\t\tf.NumData')
quiet('C37', 'featurematrix.go', '\tswitch record[0][0:2] {\n\tcase "N:":', '\tswitch {\n\tcase strings.HasPrefix(record[0], "N:"):')
quiet('C37', 'featurematrix.go', '\t\tfor i := 1; i < len(record); i++ {\n\t\t\tf.Append(record[i])\n\n\t\t}\n\t\treturn f\n\n\tdefault', '\t\tfor _, v := range record[1:] {\n\t\t\tf.Append(v)\n\t\t}\n\t\treturn f\n\n\tdefault')
bad('C37', 'featurematrix.go', "\ttsv.Comma = '\\t'\n", '')
bad('C37', 'featurematrix.go', "\ttsv.Comma = '\\t'\n", "\ttsv.Comma = '\\t'\n\ttsv.Comment = '#'\n")
bad('C37', 'featurematrix.go', "\ttsv.Comma = '\\t'\n", "\ttsv.Comma = '\\t'\n\ttsv.TrimLeadingSpace = true\n")
bad('C37', 'featurematrix.go', '\theaders = headers[1:]\n', '')
bad('C37', 'featurematrix.go', 'sniff == "C:" ||', '')
bad('C37', 'featurematrix.go', 'sniff == "N:" ||', 'sniff == "N:" || sniff == "X:" ||')
bad('C37', 'featurematrix.go', 'if len(headers[0]) > 1 {', 'if len(headers[0]) > 3 {')
bad('C37', 'featurematrix.go', 'sniff := headers[0][:2]', 'sniff := headers[len(headers)-1][:2]')
bad('C37', 'featurematrix.go', '\t\t\t\tif label[:2] == "N:" {', '\t\t\t\tif sniff == "N:" {')
bad('C37', 'featurematrix.go', '\t\t\t\tif label[:2] == "N:" {', '\t\t\t\tif label[:2] != "C:" {')
bad('C37', 'featurematrix.go', '\t\t\tfor i, label := range headers {\n\t\t\t\tif', '\t\t\tfor i, label := range headers {\n\t\t\t\tif _, dup := lookup[label]; dup {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tif')
bad('C37', 'featurematrix.go', '\t\t\tif fm.LoadCases(tsv, true) != nil {', '\t\t\tif fm.LoadCases(tsv, false) != nil {')
bad('C37', 'featurematrix.go', '\t\tdata = append(data, ParseFeature(record))\n', '\t\tif len(record) == len(headers)+1 {\n\t\t\tdata = append(data, ParseFeature(record))\n\t\t}\n')
bad('C37', 'featurematrix.go', '\t\tdata = append(data, ParseFeature(record))\n', '\t\tdata = append(data, ParseFeature(record[:len(headers)]))\n')
bad('C37', 'featurematrix.go', '\t\tdata = append(data, ParseFeature(record))\n', '\t\tdata = append([]Feature{ParseFeature(record)}, data...)\n')
bad('C37', 'featurematrix.go', '\t\tcount++\n\t}\n\treturn &FeatureMatrix{data, lookup, headers}', '\t\tcount++\n\t\tif count >= 1<<20 {\n\t\t\tbreak\n\t\t}\n\t}\n\treturn &FeatureMatrix{data, lookup, headers}')
bad('C37', 'featurematrix.go', '\t\tcount++\n\t}\n\treturn &FeatureMatrix{data, lookup, headers}', '\t\tcount++\n\t}\n\treturn &FeatureMatrix{data, lookup, headers[:len(headers)-1]}')
quiet('C37', 'featurematrix.go', '\t\tsniff := headers[0][:2]\n\t\tif sniff == "N:" || sniff == "C:" || sniff == "B:" {', '\t\tfirst := headers[0]\n\t\tif strings.HasPrefix(first, "N:") || strings.HasPrefix(first, "C:") || strings.HasPrefix(first, "B:") {')
quiet('C37', 'featurematrix.go', '\t\tdata = append(data, ParseFeature(record))\n\t\tlookup[record[0]] = count\n', '\t\tlookup[record[0]] = count\n\t\tf := ParseFeature(record)\n\t\tdata = append(data, f)\n')
quiet('C37', 'featurematrix.go', '\tif len(headers[0]) > 1 {\n\t\tsniff := headers[0][:2]\n\t\tif sniff == "N:" || sniff == "C:" || sniff == "B:" {\n', '\tif len(headers[0]) > 1 {\n\t\tincols := false\n\t\tswitch headers[0][:2] {\n\t\tcase "N:", "C:", "B:":\n\t\t\tincols = true\n\t\t}\n\t\tif incols {\n')
bad('C37', 'arff.go', '"@RELATION %v\\n\\n", relation', '"@RELATION %v\\n\\n", "data"')
bad('C37', 'arff.go', '"@RELATION %v\\n\\n", relation', '"@RELATION %v", relation')
bad('C37', 'arff.go', '"@ATTRIBUTE %v %v\\n", f.GetName(), ftype', '"@ATTRIBUTE %v %v\\n", ftype, f.GetName()')
bad('C37', 'arff.go', '"@ATTRIBUTE %v %v\\n", f.GetName(), ftype', '"@ATTRIBUTE %v %v\\n", strings.ToLower(f.GetName()), ftype')
bad('C37', 'arff.go', '"@ATTRIBUTE %v %v\\n", f.GetName(), ftype', '"@ATTRIBUTE %v %v", f.GetName(), ftype')
bad('C37', 'arff.go', 'strings.Join(f.(*DenseCatFeature).Back, ",")', 'strings.Join(f.(*DenseCatFeature).Back[1:], ",")')
bad('C37', 'arff.go', 'strings.Join(f.(*DenseCatFeature).Back, ",")', 'strings.Join(f.(*DenseCatFeature).Back, " ")')
bad('C37', 'arff.go', '"{%v}"', '"(%v)"')
bad('C37', 'arff.go', '\tfor _, f := range data.Data {\n\t\tftype', '\tfor _, f := range data.Data[:len(data.Data)-1] {\n\t\tftype')
bad('C37', 'arff.go', '\tfor _, f := range data.Data {\n\t\tftype', '\tfor n := range data.Data {\n\t\tf := data.Data[len(data.Data)-1-n]\n\t\tftype')
bad('C37', 'arff.go', '\t\tftype := "NUMERIC"\n', '\t\tftype := "NUMERIC"\n\t\tif f.NCats() == 1 {\n\t\t\tcontinue\n\t\t}\n')
bad('C37', 'arff.go', '"\\n@DATA\\n"', '"\\n@DATAS\\n"')
bad('C37', 'arff.go', "oucsv.Comma = ','", "oucsv.Comma = ' '")
bad('C37', 'arff.go', '\tfor _, i := range cases {\n\t\tentries', '\tfor i := range cases {\n\t\tentries')
bad('C37', 'arff.go', '\tfor _, i := range cases {\n\t\tentries', '\tfor _, i := range cases[1:] {\n\t\tentries')
bad('C37', 'arff.go', '\t\t\tv := "?"\n\t\t\tif !f.IsMissing(i) {', '\t\t\tv := "?"\n\t\t\tif f.IsMissing(i) {')
bad('C37', 'arff.go', '\t\t\tv := "?"\n\t\t\tif !f.IsMissing(i) {', '\t\t\tv := "NA"\n\t\t\tif !f.IsMissing(i) {')
bad('C37', 'arff.go', '\t\t\tv := "?"\n\t\t\tif !f.IsMissing(i) {', '\t\t\tv := "?"\n\t\t\tif f.NCats() > 0 || !f.IsMissing(i) {')
bad('C37', 'arff.go', '\t\t\tv := "?"\n\t\t\tif !f.IsMissing(i) {', '\t\t\tv := "?"\n\t\t\tif !f.IsMissing(cases[0]) {')
bad('C37', 'arff.go', '\t\t\t\tv = f.GetStr(i)\n\t\t\t}\n\t\t\tentries = append(entries, v)\n', '\t\t\t\tv = f.GetStr(i)\n\t\t\t}\n\t\t\tif v != "" {\n\t\t\t\tentries = append(entries, v)\n\t\t\t}\n')
bad('C37', 'arff.go', '\t\terr := oucsv.Write(entries)\n', '\t\tif len(entries) < 2 {\n\t\t\tcontinue\n\t\t}\n\t\terr := oucsv.Write(entries)\n')
bad('C37', 'arff.go', '\t\terr := oucsv.Write(entries)\n', '\t\tif i == 1000 {\n\t\t\tbreak\n\t\t}\n\t\terr := oucsv.Write(entries)\n')
bad('C37', 'arff.go', '\toucsv.Flush()\n', '')
bad('C37', 'arff.go', '\toucsv.Flush()\n\treturn oucsv.Error()', '\tif len(cases) > 1 {\n\toucsv.Flush()\n\t}\n\treturn oucsv.Error()')
quiet('C37', 'arff.go', '\t\t\tv := "?"\n\t\t\tif !f.IsMissing(i) {\n\t\t\t\tv = f.GetStr(i)\n\t\t\t}\n\t\t\tentries = append(entries, v)\n', '\t\t\tif f.IsMissing(i) {\n\t\t\t\tentries = append(entries, "?")\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tentries = append(entries, f.GetStr(i))\n')
quiet('C37', 'arff.go', '\t\tftype := "NUMERIC"\n\t\tswitch f.(type) {\n\t\tcase (*DenseCatFeature):\n\t\t\tftype = fmt.Sprintf("{%v}", strings.Join(f.(*DenseCatFeature).Back, ","))\n\t\t}\n', '\t\tftype := "NUMERIC"\n\t\tif cf, ok := f.(*DenseCatFeature); ok {\n\t\t\tftype = "{" + strings.Join(cf.Back, ",") + "}"\n\t\t}\n')
quiet('C37', 'arff.go', '\t\tftype := "NUMERIC"\n\t\tswitch f.(type) {\n\t\tcase (*DenseCatFeature):\n\t\t\tftype = fmt.Sprintf("{%v}", strings.Join(f.(*DenseCatFeature).Back, ","))\n\t\t}\n\n\t\tif _, err := fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\\n", f.GetName(), ftype); err != nil {\n\t\t\treturn err\n\t\t}\n', '\t\tif _, err := fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\\n", f.GetName(), arffType(f)); err != nil {\n\t\t\treturn err\n\t\t}\n', ('', '//WriteArffCases', 'func arffType(f Feature) string {\n\tswitch cf := f.(type) {\n\tcase *DenseCatFeature:\n\t\treturn fmt.Sprintf("{%v}", strings.Join(cf.Back, ","))\n\t}\n\treturn "NUMERIC"\n}\n\n//WriteArffCases'))
quiet('C37', 'arff.go', '\t\tentries := make([]string, 0, 10)\n\n\t\tfor _, f := range data.Data {\n\t\t\tv := "?"\n\t\t\tif !f.IsMissing(i) {\n\t\t\t\tv = f.GetStr(i)\n\t\t\t}\n\t\t\tentries = append(entries, v)\n\n\t\t}\n', '\t\tentries := arffRow(data, i)\n', ('', '//WriteArffCases', 'func arffRow(data *FeatureMatrix, i int) []string {\n\tentries := make([]string, len(data.Data))\n\tfor j, f := range data.Data {\n\t\tif f.IsMissing(i) {\n\t\t\tentries[j] = "?"\n\t\t} else {\n\t\t\tentries[j] = f.GetStr(i)\n\t\t}\n\t}\n\treturn entries\n}\n\n//WriteArffCases'))
quiet('C37', 'arff.go', "\toucsv.Comma = ','\n", '')
bad('C37', 'arff.go', 'vals := strings.Fields(line)', 'vals := strings.Fields(norm)')
bad('C37', 'arff.go', '|| strings.ToLower(vals[2]) == "real"', '')
bad('C37', 'arff.go', '|| strings.ToLower(vals[2]) == "real"', '|| vals[2] == "real"')
bad('C37', 'arff.go', '|| strings.ToLower(vals[2]) == "real"', '|| strings.ToLower(vals[2]) == "real" || strings.ToLower(vals[2]) == "string"')
bad('C37', 'arff.go', '\t\t\t\t\tvals[1],\n\t\t\t\t\tfalse})\n\t\t\t} else', '\t\t\t\t\tvals[0],\n\t\t\t\t\tfalse})\n\t\t\t} else')
bad('C37', 'arff.go', 'strings.HasPrefix(norm, "@attribute")', 'strings.HasPrefix(line, "@attribute")')
bad('C37', 'arff.go', 'strings.HasPrefix(norm, "@data")', 'strings.HasPrefix(norm, "@")')
bad('C37', 'arff.go', 'fm.LoadCases(csvdata, false)', 'fm.LoadCases(csvdata, true)')
bad('C37', 'arff.go', "\tcsvdata.Comment = '%'\n", "\tcsvdata.Comment = '#'\n")
bad('C37', 'arff.go', 'csv.NewReader(reader)', 'csv.NewReader(input)')
bad('C37', 'arff.go', '\t\t\tvals := strings.Fields(line)\n', '\t\t\tvals := strings.Fields(line)\n\t\t\tif _, dup := lookup[vals[1]]; dup {\n\t\t\t\tcontinue\n\t\t\t}\n')
quiet('C37', 'arff.go', '\t\t\tif strings.ToLower(vals[2]) == "numeric" || strings.ToLower(vals[2]) == "real" {', '\t\t\tif kind := strings.ToLower(vals[2]); kind == "real" || kind == "numeric" {')
quiet('C37', 'arff.go', '\t\tif strings.HasPrefix(norm, "@attribute") {\n\t\t\tvals', '\t\tif !strings.HasPrefix(norm, "@attribute") {\n\t\t\tcontinue\n\t\t}\n\t\t{\n\t\t\tvals')
bad('C37', 'libsvm.go', '\t\tcase NumFeature:\n\t\t\tentries = append(entries, target.GetStr(i))', '\t\tcase NumFeature:\n\t\t\tentries = append(entries, target.GetStr(0))')
bad('C37', 'libsvm.go', '\t\tcase NumFeature:\n\t\t\tentries = append(entries, target.GetStr(i))', '\t\tcase NumFeature:\n\t\t\tentries = append(entries, data.Data[0].GetStr(i))')
bad('C37', 'libsvm.go', '\tfor i := 0; i < target.Length(); i++ {', '\tfor i := 0; i < target.Length()-1; i++ {')
bad('C37', 'libsvm.go', '\tfor i := 0; i < target.Length(); i++ {', '\tfor i := target.Length() - 1; i >= 0; i-- {')
bad('C37', 'libsvm.go', '\t\tif i != targeti {\n\t\t\tnoTargetFm.Map', '\t\tif i > 0 && i != targeti {\n\t\t\tnoTargetFm.Map')
bad('C37', 'libsvm.go', '\t\tif i != targeti {\n\t\t\tnoTargetFm.Map', '\t\tif i >= 0 {\n\t\t\tnoTargetFm.Map')
bad('C37', 'libsvm.go', '\t\t\tnoTargetFm.Data = append(noTargetFm.Data, f.Copy())\n\n\t\t}\n\t}\n\n\tnoTargetFm.ImputeMissing()\n\tencodedfm := noTargetFm.EncodeToNum()', '\t\t\tnoTargetFm.Data = append(noTargetFm.Data, f)\n\n\t\t}\n\t}\n\n\tnoTargetFm.ImputeMissing()\n\tencodedfm := noTargetFm.EncodeToNum()')
bad('C37', 'libsvm.go', '\tnoTargetFm.ImputeMissing()\n\tencodedfm := noTargetFm.EncodeToNum()', '\tencodedfm := noTargetFm.EncodeToNum()')
bad('C37', 'libsvm.go', '\tnoTargetFm.ImputeMissing()\n\tencodedfm := noTargetFm.EncodeToNum()', '\tencodedfm := noTargetFm.EncodeToNum()\n\tnoTargetFm.ImputeMissing()')
bad('C37', 'libsvm.go', '\tnoTargetFm.ImputeMissing()\n\tencodedfm := noTargetFm.EncodeToNum()', '\tnoTargetFm.ImputeMissing()\n\tencodedfm := data.EncodeToNum()')
bad('C37', 'libsvm.go', '\t\t\tif v != 0.0 {', '\t\t\tif v > 0.0 {')
bad('C37', 'libsvm.go', '\t\t\tif v != 0.0 {', '\t\t\tif v != 1.0 {')
bad('C37', 'libsvm.go', 'fmt.Sprintf("%v:%v", j+1, v)', 'fmt.Sprintf("%v:%v", j, v)')
bad('C37', 'libsvm.go', 'fmt.Sprintf("%v:%v", j+1, v)', 'fmt.Sprintf("%v:%.6g", j+1, v)')
bad('C37', 'libsvm.go', 'fmt.Sprintf("%v:%v", j+1, v)', 'fmt.Sprintf("%v=%v", j+1, v)')
bad('C37', 'libsvm.go', 'fmt.Sprintf("%v:%v", j+1, v)', 'fmt.Sprintf("%v:%v", len(entries)+0*j, v)')
bad('C37', 'libsvm.go', "\toucsv.Comma = ' '\n", '')
bad('C37', 'libsvm.go', '\tif encode {\n\t\tencodedfm', '\tif encode && len(cases) > 10 {\n\t\tencodedfm')
bad('C37', 'libsvm.go', '\t\t\t\tencode = true\n', '\t\t\t\tencode = i == 0\n')
bad('C37', 'libsvm.go', '\t\t\tif data.Data[i].NCats() > 0 {', '\t\t\tif data.Data[i].NCats() > 2 {')
bad('C37', 'libsvm.go', '\tencodedfm := noTargetFm\n\tif encode {', '\tencodedfm := noTargetFm\n\tif !encode {')
bad('C37', 'libsvm.go', '\tfor _, i := range cases {\n\t\tentries', '\tfor i := range cases {\n\t\tentries')
bad('C37', 'libsvm.go', 'fmt.Sprintf("%g", target.(NumFeature).Get(i))', 'fmt.Sprintf("%.3f", target.(NumFeature).Get(i))')
bad('C37', 'libsvm.go', 'fmt.Sprintf("%g", target.(NumFeature).Get(i))', 'fmt.Sprintf("%g", -target.(NumFeature).Get(i))')
bad('C37', 'libsvm.go', ('\t\terr := oucsv.Write(entries)\n', 1), '\t\tif len(entries) == 1 {\n\t\t\tcontinue\n\t\t}\n\t\terr := oucsv.Write(entries)\n')
bad('C37', 'libsvm.go', '\toucsv.Flush()\n', '')
quiet('C37', 'libsvm.go', '\tnoTargetFm.ImputeMissing()\n\n\tencodedfm := noTargetFm\n\tif encode {\n\t\tencodedfm = noTargetFm.EncodeToNum()\n\t}\n', '\tnoTargetFm.ImputeMissing()\n\n\t_ = encode\n\tencodedfm := noTargetFm.EncodeToNum()\n')
quiet('C37', 'libsvm.go', '\tfor i, f := range data.Data {\n\t\tif i != targeti {\n\t\t\tnoTargetFm.Map[f.GetName()] = len(noTargetFm.Data)\n\t\t\tnoTargetFm.Data = append(noTargetFm.Data, f.Copy())\n\n\t\t}\n\t}\n', '\tfor i, f := range data.Data {\n\t\tif i == targeti {\n\t\t\tcontinue\n\t\t}\n\t\tnoTargetFm.Map[f.GetName()] = len(noTargetFm.Data)\n\t\tnoTargetFm.Data = append(noTargetFm.Data, f.Copy())\n\t}\n')
quiet('C37', 'libsvm.go', '\tnoTargetFm := &FeatureMatrix{make([]Feature, 0, len(data.Data)), make(map[string]int), data.CaseLabels}\n\n\tfor i, f := range data.Data {\n\t\tif i != targeti {\n\t\t\tnoTargetFm.Map[f.GetName()] = len(noTargetFm.Data)\n\t\t\tnoTargetFm.Data = append(noTargetFm.Data, f.Copy())\n\n\t\t}\n\t}\n', '\tnoTargetFm := data.without(targeti)\n', ('', 'func WriteLibSvm(', 'func (fm *FeatureMatrix) without(skip int) *FeatureMatrix {\n\tfeats := make([]Feature, 0, len(fm.Data))\n\tindex := make(map[string]int)\n\tfor i := 0; i < len(fm.Data); i++ {\n\t\tif i == skip {\n\t\t\tcontinue\n\t\t}\n\t\tindex[fm.Data[i].GetName()] = len(feats)\n\t\tfeats = append(feats, fm.Data[i].Copy())\n\t}\n\treturn &FeatureMatrix{feats, index, fm.CaseLabels}\n}\n\nfunc WriteLibSvm('))
quiet('C37', 'libsvm.go', '\t\tfor j, f := range encodedfm.Data {\n\t\t\tv := f.(NumFeature).Get(i)\n\t\t\tif v != 0.0 {\n\t\t\t\tentries = append(entries, fmt.Sprintf("%v:%v", j+1, v))\n\t\t\t}\n\t\t}\n', '\t\tentries = append(entries, sparse(encodedfm, i)...)\n', ('', 'func WriteLibSvm(', 'func sparse(fm *FeatureMatrix, i int) []string {\n\tout := []string{}\n\tfor j := range fm.Data {\n\t\tv := fm.Data[j].(NumFeature).Get(i)\n\t\tif v == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tout = append(out, strconv.Itoa(j+1)+":"+fmt.Sprint(v))\n\t}\n\treturn out\n}\n\nfunc WriteLibSvm('))
quiet('C37', 'libsvm.go', '\t\tswitch target.(type) {\n\t\tcase NumFeature:\n\t\t\tentries = append(entries, target.GetStr(i))\n\t\tcase CatFeature:\n\t\t\tentries = append(entries, fmt.Sprintf("%v", target.(CatFeature).Geti(i)))\n\t\t}\n', '\t\tswitch t := target.(type) {\n\t\tcase CatFeature:\n\t\t\tentries = append(entries, strconv.Itoa(t.Geti(i)))\n\t\tcase NumFeature:\n\t\t\tentries = append(entries, t.GetStr(i))\n\t\t}\n')
bad('C37', 'libsvm.go', 'f.Append("0")', 'f.Append("NA")')
bad('C37', 'libsvm.go', 'for _, f := range data[1:] {', 'for _, f := range data[2:] {')
bad('C37', 'libsvm.go', 'for _, f := range data[1:] {', 'for _, f := range data {')
bad('C37', 'libsvm.go', '\t\tfor _, f := range data[1:] {\n\t\t\tf.Append("0")\n\t\t}\n', '')
bad('C37', 'libsvm.go', '\t\t\tf.Append("0")\n', '\t\t\tif len(vals) > 1 {\n\t\t\t\tf.Append("0")\n\t\t\t}\n')
bad('C37', 'libsvm.go', '\t\t//pad existing features\n\t\tfor _, f := range data[1:] {\n\t\t\tf.Append("0")\n\t\t}\n\n\t\tfor _, v := range vals[1:] {', '\t\tif len(vals) == 1 {\n\t\t\tlabels = append(labels, fmt.Sprintf("%v", i))\n\t\t\ti++\n\t\t\tcontinue\n\t\t}\n\t\t//pad existing features\n\t\tfor _, f := range data[1:] {\n\t\t\tf.Append("0")\n\t\t}\n\n\t\tfor _, v := range vals[1:] {')
bad('C37', 'libsvm.go', 'data[0].Append(vals[0])', 'data[0].Append(vals[len(vals)-1])')
bad('C37', 'libsvm.go', '\t\tdata[0].Append(vals[0])\n', '\t\tif i > 0 {\n\t\tdata[0].Append(vals[0])\n\t\t}\n')
bad('C37', 'libsvm.go', 'strings.Contains(vals[0], ".")', 'strings.Contains(line, ".")')
bad('C37', 'libsvm.go', 'strings.Contains(vals[0], ".")', '!strings.Contains(vals[0], ".")')
bad('C37', 'libsvm.go', '\t\tif i == 0 {\n\t\t\tname', '\t\tif i == 0 || len(vals) == 1 {\n\t\t\tname')
bad('C37', 'libsvm.go', '\t\tfor _, v := range vals[1:] {', '\t\tfor _, v := range vals[2:] {')
bad('C37', 'libsvm.go', 'for xi >= len(data) {', 'for xi+1 >= len(data) {')
bad('C37', 'libsvm.go', 'for xi >= len(data) {', 'for xi > len(data) {')
bad('C37', 'libsvm.go', 'make([]float64, ncases, ncases)', 'make([]float64, i, ncases)')
bad('C37', 'libsvm.go', 'make([]bool, ncases, ncases)', 'make([]bool, ncases-1, ncases)')
bad('C37', 'libsvm.go', 'data[xi].PutStr(i, parts[1])', 'data[xi].PutStr(i, v)')
bad('C37', 'libsvm.go', 'data[xi].PutStr(i, parts[1])', 'data[xi].PutStr(ncases, parts[1])')
bad('C37', 'libsvm.go', 'data[xi].PutStr(i, parts[1])', 'data[len(data)-1].PutStr(i, parts[1])')
bad('C37', 'libsvm.go', 'data[xi].PutStr(i, parts[1])', 'if xi > 0 && parts[1] != "0" && xi < 1000 {\ndata[xi].PutStr(i, parts[1])\n}')
bad('C37', 'libsvm.go', '\t\t\tdata[xi].PutStr(i, parts[1])\n', '\t\t\tdata[xi].PutStr(i, parts[1])\n\t\t\tif parts[1] == "0" {\n\t\t\t\tbreak\n\t\t\t}\n')
bad('C37', 'libsvm.go', '\t\tlabels = append(labels, label)\n', '\t\tif len(vals) > 1 {\n\t\tlabels = append(labels, label)\n\t\t}\n')
bad('C37', 'libsvm.go', 'label := fmt.Sprintf("%v", i)', 'label := fmt.Sprintf("%v", ncases)')
bad('C37', 'libsvm.go', '\t\tncases++\n\n\t\tline, err', '\t\tline, err')
bad('C37', 'libsvm.go', '\t\tvals := strings.Fields(line)\n\n\t\tif i', '\t\tvals := strings.Fields(line)\n\t\tif vals[0] == "#" {\n\t\t\tcontinue\n\t\t}\n\t\tif i')
bad('C37', 'libsvm.go', 'strings.Split(v, ":")', 'strings.Split(v, ".")')
quiet('C37', 'libsvm.go', '\t\tfor _, f := range data[1:] {\n\t\t\tf.Append("0")\n\t\t}\n', '\t\tfor j := 1; j < len(data); j++ {\n\t\t\tdata[j].Append("0")\n\t\t}\n')
quiet('C37', 'libsvm.go', '\t\tncases++\n\n\t\tline, err', '\t\tncases = i + 1\n\n\t\tline, err')
quiet('C37', 'libsvm.go', '\t\tfor _, v := range vals[1:] {\n\t\t\tparts', '\t\tfor j := 1; j < len(vals); j++ {\n\t\t\tv := vals[j]\n\t\t\tparts')
quiet('C37', 'libsvm.go', '\t\tdata[0].Append(vals[0])\n\n\t\t//pad existing features\n\t\tfor _, f := range data[1:] {\n\t\t\tf.Append("0")\n\t\t}\n', '\t\tfor _, f := range data[1:] {\n\t\t\tf.Append("0")\n\t\t}\n\t\tdata[0].Append(vals[0])\n')
quiet('C37', 'libsvm.go', '\t\t\t\tdata = append(data, &DenseNumFeature{\n\t\t\t\t\tmake([]float64, ncases, ncases),\n\t\t\t\t\tmake([]bool, ncases, ncases),\n\t\t\t\t\tname,\n\t\t\t\t\tfalse})\n', '\t\t\t\tdata = append(data, zeros(name, ncases))\n', ('', 'func ParseLibSVM', 'func zeros(name string, n int) *DenseNumFeature {\n\treturn &DenseNumFeature{make([]float64, n), make([]bool, n), name, false}\n}\n\nfunc ParseLibSVM'))
quiet('C37', 'libsvm.go', '\t\tlabel := fmt.Sprintf("%v", i)\n\t\tlabels = append(labels, label)\n\t\ti++\n', '\t\tlabels = append(labels, strconv.Itoa(i))\n\t\ti++\n')
quiet('C37', 'featurematrix.go', '\t\t\t\tif label[:2] == "N:" {\n\t\t\t\t\tdata = append(data, &DenseNumFeature{\n\t\t\t\t\t\tmake([]float64, 0, 0),\n\t\t\t\t\t\tmake([]bool, 0, 0),\n\t\t\t\t\t\tlabel,\n\t\t\t\t\t\tfalse})\n\t\t\t\t} else {\n\t\t\t\t\tdata = append(data, &DenseCatFeature{\n\t\t\t\t\t\t&CatMap{make(map[string]int, 0),\n\t\t\t\t\t\t\tmake([]string, 0, 0)},\n\t\t\t\t\t\tmake([]int, 0, 0),\n\t\t\t\t\t\tmake([]bool, 0, 0),\n\t\t\t\t\t\tlabel,\n\t\t\t\t\t\tfalse,\n\t\t\t\t\t\tfalse})\n\t\t\t\t}\n', '\t\t\t\tdata = append(data, emptyFeature(label))\n', ('', '//ParseFeature parses', 'func emptyFeature(label string) Feature {\n\tif label[:2] != "N:" {\n\t\treturn &DenseCatFeature{&CatMap{make(map[string]int, 0), make([]string, 0, 0)}, make([]int, 0, 0), make([]bool, 0, 0), label, false, false}\n\t}\n\treturn &DenseNumFeature{make([]float64, 0, 0), make([]bool, 0, 0), label, false}\n}\n\n//ParseFeature parses'))
quiet('C37', 'featurematrix.go', '\t\t\t\tif label[:2] == "N:" {\n\t\t\t\t\tdata = append(data, &DenseNumFeature{\n\t\t\t\t\t\tmake([]float64, 0, 0),\n\t\t\t\t\t\tmake([]bool, 0, 0),\n\t\t\t\t\t\tlabel,\n\t\t\t\t\t\tfalse})\n\t\t\t\t} else {\n\t\t\t\t\tdata = append(data, &DenseCatFeature{\n\t\t\t\t\t\t&CatMap{make(map[string]int, 0),\n\t\t\t\t\t\t\tmake([]string, 0, 0)},\n\t\t\t\t\t\tmake([]int, 0, 0),\n\t\t\t\t\t\tmake([]bool, 0, 0),\n\t\t\t\t\t\tlabel,\n\t\t\t\t\t\tfalse,\n\t\t\t\t\t\tfalse})\n\t\t\t\t}\n', '\t\t\t\tvar f Feature\n\t\t\t\tswitch label[:2] {\n\t\t\t\tcase "N:":\n\t\t\t\t\tf = &DenseNumFeature{make([]float64, 0), make([]bool, 0), label, false}\n\t\t\t\tdefault:\n\t\t\t\t\tf = &DenseCatFeature{&CatMap{make(map[string]int, 0), make([]string, 0, 0)}, make([]int, 0, 0), make([]bool, 0, 0), label, false, false}\n\t\t\t\t}\n\t\t\t\tdata = append(data, f)\n')
quiet('C37', 'featurematrix.go', '\tcount := 0\n\tfor {\n\t\trecord, err := tsv.Read()', '\tfm := &FeatureMatrix{data, lookup, headers}\n\tfor count := 0; ; count++ {\n\t\trecord, err := tsv.Read()', ('', '\t\tdata = append(data, ParseFeature(record))\n\t\tlookup[record[0]] = count\n\t\tcount++\n\t}\n\treturn &FeatureMatrix{data, lookup, headers}', '\t\tfm.Data = append(fm.Data, ParseFeature(record))\n\t\tfm.Map[record[0]] = count\n\t}\n\treturn fm'))
quiet('C37', 'featurematrix.go', '\tswitch record[0][0:2] {\n\tcase "N:":\n\t\tf :=', '\tvar out Feature\n\tswitch record[0][0:2] {\n\tcase "N:":\n\t\tf :=', ('', '\t\tf.NumData = make([]float64, 0, capacity)\n\n\t\tfor i := 1; i < len(record); i++ {\n\t\t\tf.Append(record[i])\n\n\t\t}\n\t\treturn f\n\n\tdefault:', '\t\tf.NumData = make([]float64, 0, capacity)\n\t\tout = f\n\n\tdefault:'), ('', '\t\tf.CatData = make([]int, 0, capacity)\n\t\tfor i := 1; i < len(record); i++ {\n\t\t\tf.Append(record[i])\n\n\t\t}\n\t\treturn f\n\t}\n', '\t\tf.CatData = make([]int, 0, capacity)\n\t\tout = f\n\t}\n\tfor _, v := range record[1:] {\n\t\tout.Append(v)\n\t}\n\treturn out\n'))
bad('C38', 'densenumfeature.go', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n', '\tfor i, m := range f.Missing {\n\t\tif m && mean != 0 {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n')
bad('C38', 'densenumfeature.go', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n', '\tfor i, m := range f.Missing {\n\t\tif m || f.NumData[i] == 0 {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n')
bad('C38', 'densenumfeature.go', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n', '\tfor i, m := range f.Missing {\n\t\tif !m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n')
bad('C38', 'densenumfeature.go', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n', '\tfor i, m := range f.Missing[1:] {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n')
bad('C38', 'densenumfeature.go', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = float64(int(mean))\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n')
bad('C38', 'densenumfeature.go', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\n\t\t}\n\t}\n')
bad('C38', 'densenumfeature.go', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = i > 0\n\n\t\t}\n\t}\n')
bad('C38', 'densenumfeature.go', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tif i < len(f.NumData)-1 {\n\t\t\tf.NumData[i] = mean\n}\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n')
bad('C38', 'densenumfeature.go', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n', '\tfor i := range f.Missing {\n\t\tf.Missing[i] = false\n\t}\n\tfor i, m := range f.Missing {\n\t\tif m {\n\t\t\tf.NumData[i] = mean\n\t\t}\n\t}\n')
bad('C38', 'densenumfeature.go', '\tcases := make([]int, 0, len(f.Missing))\n\tfor i, _ := range f.Missing {\n\t\tcases = append(cases, i)\n\t}\n', '\tcases := make([]int, 0, len(f.Missing))\n\tfor i, _ := range f.Missing[:len(f.Missing)/2] {\n\t\tcases = append(cases, i)\n\t}\n')
bad('C38', 'densenumfeature.go', '\tcases := make([]int, 0, len(f.Missing))\n\tfor i, _ := range f.Missing {\n\t\tcases = append(cases, i)\n\t}\n', '\tcases := make([]int, 0, len(f.Missing))\n\tfor i, _ := range f.Missing {\n\t\tif i%100 != 99 {\n\t\tcases = append(cases, i)\n}\n\t}\n')
bad('C38', 'densenumfeature.go', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\t\t\tbreak\n\t\t}\n\t}\n')
bad('C38', 'densenumfeature.go', '\tmean = f.Mean(&cases)\n\n\tfor i, m', '\tif f.HasMissing {\n\tmean = f.Mean(&cases)\n\t}\n\n\tfor i, m')
bad('C38', 'densenumfeature.go', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n', '\tif len(cases) > 2 {\n\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n\t}\n')
bad('C38', 'densenumfeature.go', '\tmean = f.Mean(&cases)\n\n', '\tmean = f.Mean(&cases)\n\tfor i, m := range f.Missing {\n\t\tif m {\n\t\t\tf.Missing[i] = false\n\t\t}\n\t}\n\n')
bad('C38', 'densenumfeature.go', '\tmean = f.Mean(&cases)\n\n', '\tmean = f.Mode(&cases)\n\n')
bad('C38', 'densecatfeature.go', '\tmode := f.Modei(&cases)\n\n\tfor i, m', '\tcases = cases[:len(cases)-1]\n\tmode := f.Modei(&cases)\n\n\tfor i, m')
bad('C38', 'densecatfeature.go', '\t\t\tf.CatData[i] = mode\n', '\t\t\tf.CatData[i] = mode*(i % f.NCats())\n')
bad('C38', 'densecatfeature.go', '\t\t\tf.CatData[i] = mode\n', '\t\t\tf.CatData[i] = mode + 0*i\n\t\t\tif i > 0 {\n\t\t\t\tf.CatData[i-1] = mode\n\t\t\t}\n')
bad('C38', 'featurematrix.go', '\tfor _, f := range fm.Data {\n\t\tf.ImputeMissing()', '\tfor _, f := range fm.Data {\n\t\tif f.NCats() > 0 {\n\t\t\tcontinue\n\t\t}\n\t\tf.ImputeMissing()')
bad('C38', 'featurematrix.go', '\tfor _, f := range fm.Data {\n\t\tf.ImputeMissing()', '\tfor _, f := range fm.Data[1:] {\n\t\tf.ImputeMissing()')
bad('C38', 'featurematrix.go', '\tfor _, f := range fm.Data {\n\t\tf.ImputeMissing()', '\tfor _, f := range fm.Data {\n\t\tif !f.MissingVals() {\n\t\t\treturn\n\t\t}\n\t\tf.ImputeMissing()')
bad('C38', 'growforest/growforest.go', '\tif impute {', '\tif impute && !splitmissing {')
bad('C38', 'growforest/growforest.go', '\tif impute {', '\tif impute || permutate {')
bad('C38', 'growforest/growforest.go', '\tif impute {\n\t\tfmt.Println("Imputing missing values to feature mean/mode.")\n\t\tdata.ImputeMissing()\n\t}\n', '', ('', '\ttargetf := data.Data[targeti]\n\tunboostedTarget := targetf.Copy()\n', '\ttargetf := data.Data[targeti]\n\tunboostedTarget := targetf.Copy()\n\tif impute {\n\t\tdata.ImputeMissing()\n\t}\n'))
bad('C38', 'growforest/growforest.go', '\t\tdata.ImputeMissing()', '\t\tfor _, f := range data.Data {\n\t\t\tf.ImputeMissing()\n\t\t}')
bad('C38', 'utils/nfold/main.go', '\tif impute {', '\tif impute && !onehot {')
bad('C38', 'utils/nfold/main.go', '\tif impute {\n\t\tfmt.Println("Imputing missing values to feature mean/mode.")\n\t\tdata.ImputeMissing()\n\t}\n\n\tif onehot {\n\t\tfmt.Println("OneHot encoding.")\n\t\tdata = data.OneHot()\n\t}\n', '\tif onehot {\n\t\tfmt.Println("OneHot encoding.")\n\t\tdata = data.OneHot()\n\t}\n\tif impute {\n\t\tdata.ImputeMissing()\n\t}\n')
quiet('C38', 'densenumfeature.go', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n', '\tfor i := 0; i < f.Length(); i++ {\n\t\tif !f.IsMissing(i) {\n\t\t\tcontinue\n\t\t}\n\t\tf.Missing[i] = false\n\t\tf.NumData[i] = mean\n\t}\n')
quiet('C38', 'densenumfeature.go', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n', '\tfor i, m := range f.Missing {\n\t\tif m {\n\t\t\tf.NumData[i] = mean\n\t\t}\n\t}\n\tfor i := range f.Missing {\n\t\tf.Missing[i] = false\n\t}\n')
quiet('C38', 'densenumfeature.go', '\tcases := make([]int, 0, len(f.Missing))\n\tfor i, _ := range f.Missing {\n\t\tcases = append(cases, i)\n\t}\n', '\tcases := everyCase(len(f.Missing))\n', ('', '//ImputeMissing imputes', 'func everyCase(n int) []int {\n\tall := make([]int, n)\n\tfor i := range all {\n\t\tall[i] = i\n\t}\n\treturn all\n}\n\n//ImputeMissing imputes'))
quiet('C38', 'densenumfeature.go', '\tcases := make([]int, 0, len(f.Missing))\n\tfor i, _ := range f.Missing {\n\t\tcases = append(cases, i)\n\t}\n', '\tcases := everyCase(f.Length())\n', ('', '//ImputeMissing imputes', 'func everyCase(n int) (all []int) {\n\tfor i := 0; i < n; i++ {\n\t\tall = append(all, i)\n\t}\n\treturn all\n}\n\n//ImputeMissing imputes'))
quiet('C38', 'densenumfeature.go', '\tcases := make([]int, 0, len(f.Missing))\n\tfor i, _ := range f.Missing {\n\t\tcases = append(cases, i)\n\t}\n', '\tcases := make([]int, len(f.Missing))\n\tfor i := range cases {\n\t\tcases[i] = i\n\t}\n')
quiet('C38', 'densenumfeature.go', '\tfor i, m := range f.Missing {\n\t\tif m {\n\n\t\t\tf.NumData[i] = mean\n\n\t\t\tf.Missing[i] = false\n\n\t\t}\n\t}\n', '\tfor i := len(f.Missing)-1; i >= 0; i-- {\n\t\tif f.Missing[i] {\n\t\t\tf.fill(i, mean)\n\t\t}\n\t}\n', ('', '//ImputeMissing imputes', 'func (f *DenseNumFeature) fill(i int, v float64) {\n\tf.NumData[i] = v\n\tf.Missing[i] = false\n}\n\n//ImputeMissing imputes'))
quiet('C38', 'densenumfeature.go', '\tcases := make([]int, 0, len(f.Missing))\n\tfor i, _', '\tif !f.HasMissing {\n\t\treturn\n\t}\n\tcases := make([]int, 0, len(f.Missing))\n\tfor i, _')
quiet('C38', 'featurematrix.go', '\tfor _, f := range fm.Data {\n\t\tf.ImputeMissing()', '\tfor i := 0; i < len(fm.Data); i++ {\n\t\tfm.Data[i].ImputeMissing()')
quiet('C38', 'featurematrix.go', '\tfor _, f := range fm.Data {\n\t\tf.ImputeMissing()', '\tfor _, f := range fm.Data {\n\t\tf.ImputeMissing()\n\t\t_ = f.NCats()')
quiet('C38', 'growforest/growforest.go', '\tif impute {\n\t\tfmt.Println("Imputing missing values to feature mean/mode.")\n\t\tdata.ImputeMissing()\n\t}\n', '\tprepare(data, impute)\n', ('', 'func main() {', 'func prepare(m *CloudForest.FeatureMatrix, fill bool) {\n\tif !fill {\n\t\treturn\n\t}\n\tfmt.Println("Imputing missing values to feature mean/mode.")\n\tm.ImputeMissing()\n}\n\nfunc main() {'))
quiet('C38', 'featurematrix.go', '\tfor _, f := range fm.Data {\n\t\tf.ImputeMissing()', '\tfor _, f := range fm.Data {\n\t\tif f.MissingVals() {\n\t\t\tf.ImputeMissing()\n\t\t}')
bad('C38', 'growforest/growforest.go', '\tif permutate {', '\tif permutate && !balance {')
bad('C38', 'growforest/growforest.go', '\tif permutate {\n\t\tfmt.Println("Permuting target feature.")\n\t\tdata.Data[targeti].Shuffle()\n\t}\n', '', ('', '\tunboostedTarget := targetf.Copy()\n', '\tunboostedTarget := targetf.Copy()\n\tif permutate {\n\t\ttargetf.Shuffle()\n\t}\n'))
bad('C38', 'growforest/growforest.go', '\t\t\tif targeti != i && re.MatchString(feature.GetName()) {\n\t\t\t\tdata.Data[i].Shuffle()', '\t\t\tif re.MatchString(feature.GetName()) {\n\t\t\t\tdata.Data[i].Shuffle()')
bad('C38', 'growforest/growforest.go', '\t\t\tif targeti != i && re.MatchString(feature.GetName()) {\n\t\t\t\tdata.Data[i].Shuffle()', '\t\t\tif targeti != i && !blacklistis[i] && re.MatchString(feature.GetName()) {\n\t\t\t\tdata.Data[i].Shuffle()')
bad('C38', 'growforest/growforest.go', '\t\t\tif targeti != i && re.MatchString(feature.GetName()) {\n\t\t\t\tdata.Data[i].Shuffle()', '\t\t\tif targeti != i && !re.MatchString(feature.GetName()) {\n\t\t\t\tdata.Data[i].Shuffle()')
bad('C38', 'growforest/growforest.go', '\t\t\t\tdata.Data[i].Shuffle()\n\t\t\t\tshuffled += 1\n', '\t\t\t\tdata.Data[shuffled].Shuffle()\n\t\t\t\tshuffled += 1\n')
bad('C38', 'growforest/growforest.go', '\t\t\t\tdata.Data[i].Shuffle()\n\t\t\t\tshuffled += 1\n', '\t\t\t\tdata.Data[i].Shuffle()\n\t\t\t\tshuffled += 1\n\t\t\t\tbreak\n')
bad('C38', 'growforest/growforest.go', '\t\tdata.AddContrasts(nContrasts)', '\t\tdata.AddContrasts(nContrasts - 1)')
bad('C38', 'growforest/growforest.go', '\tif nContrasts > 0 {', '\tif nContrasts > 1 {')
bad('C38', 'growforest/growforest.go', '\tif nContrasts > 0 {', '\tif nContrasts > 0 && !contrastAll {')
bad('C38', 'growforest/growforest.go', '\tif contrastAll {', '\tif contrastAll && nContrasts == 0 {')
bad('C38', 'growforest/growforest.go', '\tif contrastAll {', '\tif contrastAll || nContrasts > len(data.Data) {')
bad('C38', 'growforest/growforest.go', '\t\t\tfor i := firstace; i < len(data.Data); i++ {\n\t\t\t\tif !blacklistis[i] {\n\t\t\t\t\tdata.Data[i].Shuffle()', '\t\t\tfor i := firstace - 1; i < len(data.Data); i++ {\n\t\t\t\tif !blacklistis[i] {\n\t\t\t\t\tdata.Data[i].Shuffle()')
bad('C38', 'growforest/growforest.go', '\t\t\tfor i := firstace; i < len(data.Data); i++ {\n\t\t\t\tif !blacklistis[i] {\n\t\t\t\t\tdata.Data[i].Shuffle()', '\t\t\tfor i := 0; i < len(data.Data); i++ {\n\t\t\t\tif !blacklistis[i] {\n\t\t\t\t\tdata.Data[i].Shuffle()')
quiet('C38', 'growforest/growforest.go', '\t\t\tif targeti != i && re.MatchString(feature.GetName()) {\n\t\t\t\tdata.Data[i].Shuffle()\n\t\t\t\tshuffled += 1\n', '\t\t\tif targeti == i {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tif re.MatchString(feature.GetName()) {\n\t\t\t\tfeature.Shuffle()\n\t\t\t\tshuffled++\n')
quiet('C38', 'growforest/growforest.go', '\tif permutate {\n\t\tfmt.Println("Permuting target feature.")\n\t\tdata.Data[targeti].Shuffle()\n\t}\n', '', ('', '\ttargetf := data.Data[targeti]\n', '\ttargetf := data.Data[targeti]\n\tif permutate {\n\t\ttargetf.Shuffle()\n\t}\n'))
quiet('C38', 'growforest/growforest.go', '\tif nContrasts > 0 {\n\t\tfmt.Printf("Adding %v Random Contrasts\\n", nContrasts)\n\t\tdata.AddContrasts(nContrasts)\n\t}\n\tif contrastAll {\n\t\tfmt.Printf("Adding Random Contrasts for All Features.\\n")\n\t\tdata.ContrastAll()\n\t}\n', '\tcontrast(data, nContrasts, contrastAll)\n', ('', 'func main() {', 'func contrast(m *CloudForest.FeatureMatrix, n int, all bool) {\n\tif n >= 1 {\n\t\tm.AddContrasts(n)\n\t}\n\tif all {\n\t\tm.ContrastAll()\n\t}\n}\n\nfunc main() {'))
quiet('C38', 'growforest/growforest.go', '\tif shuffleRE != "" {\n\t\tre := regexp.MustCompile(shuffleRE)\n\t\tshuffled := 0\n', '\tif len(shuffleRE) > 0 {\n\t\tshuffled, re := 0, regexp.MustCompile(shuffleRE)\n')
bad('C39', 'sklearn_tree.go', '\t\tsktree.Nodes[pos].Feature = n.Featurei', '\t\tsktree.Nodes[pos].Feature = n.Featurei - 1')
bad('C39', 'sklearn_tree.go', '\t\tsktree.Nodes[pos].Threshold = n.Splitter.Value', '\t\tif n.Splitter.Numerical {\n\t\t\tsktree.Nodes[pos].Threshold = -n.Splitter.Value\n\t\t}')
bad('C39', 'sklearn_tree.go', '\t\tsktree.Nodes[pos].LeftChild = sktree.NodeCount\n', '\t\tsktree.Nodes[pos].LeftChild = sktree.NodeCount - 1\n')
bad('C39', 'sklearn_tree.go', '\t\tsktree.Nodes[pos].RightChild = sktree.NodeCount\n\t\tBuildScikitTree(depth, n.Right, sktree)\n', '\t\tBuildScikitTree(depth, n.Right, sktree)\n\t\tsktree.Nodes[pos].RightChild = sktree.NodeCount\n')
bad('C39', 'sklearn_tree.go', '\t\tsktree.Nodes[pos].LeftChild = sktree.NodeCount\n\t\tBuildScikitTree(depth, n.Left, sktree)\n\t\tsktree.Nodes[pos].RightChild = sktree.NodeCount\n\t\tBuildScikitTree(depth, n.Right, sktree)\n', '\t\tleft, right := n.Left, n.Right\n\t\tif n.Splitter.Value < 0 {\n\t\t\tleft, right = right, left\n\t\t}\n\t\tsktree.Nodes[pos].LeftChild = sktree.NodeCount\n\t\tBuildScikitTree(depth, left, sktree)\n\t\tsktree.Nodes[pos].RightChild = sktree.NodeCount\n\t\tBuildScikitTree(depth, right, sktree)\n')
bad('C39', 'sklearn_tree.go', '\t\tsktree.Nodes[pos].LeftChild = sktree.NodeCount\n\t\tBuildScikitTree(depth, n.Left, sktree)\n\t\tsktree.Nodes[pos].RightChild = sktree.NodeCount\n\t\tBuildScikitTree(depth, n.Right, sktree)\n', '\t\tnode := &sktree.Nodes[pos]\n\t\tnode.LeftChild = sktree.NodeCount\n\t\tBuildScikitTree(depth, n.Left, sktree)\n\t\tnode.RightChild = sktree.NodeCount\n\t\tBuildScikitTree(depth, n.Right, sktree)\n')
bad('C39', 'sklearn_tree.go', '\t\tsktree.Nodes[pos].RightChild = sktree.NodeCount\n\t\tBuildScikitTree(depth, n.Right, sktree)\n', '\t\tright := sktree.NodeCount\n\t\tnodes := sktree.Nodes\n\t\tBuildScikitTree(depth, n.Right, sktree)\n\t\tnodes[pos].RightChild = right\n')
bad('C39', 'sklearn_tree.go', '\tpos := len(sktree.Nodes)\n', '\tpos := len(sktree.Nodes) - 1\n\tif pos < 0 {\n\t\tpos = 0\n\t}\n')
bad('C39', 'sklearn_tree.go', '\tif depth > sktree.MaxDepth {', '\tif n.Splitter != nil && depth > sktree.MaxDepth {')
bad('C39', 'sklearn_tree.go', '\tif depth > sktree.MaxDepth {', '\tif depth > sktree.MaxDepth+1 {')
bad('C39', 'sklearn_tree.go', '\tif depth > sktree.MaxDepth {\n\t\tsktree.MaxDepth = depth\n', '\tif depth > sktree.MaxDepth {\n\t\tsktree.MaxDepth++\n')
bad('C39', 'sklearn_tree.go', '\tdepth++\n\tsktree.NodeCount++', '\tsktree.NodeCount++')
bad('C39', 'sklearn_tree.go', '\tsktree.NodeCount++\n', '\tif n.Splitter != nil {\n\t\tsktree.NodeCount++\n\t}\n')
bad('C39', 'sklearn_tree.go', '\t\tsktree.Nodes[pos].RightChild = -1\n', '')
bad('C39', 'sklearn_tree.go', '\tif n.Splitter != nil {\n\t\tsktree', '\tif n.Left != nil {\n\t\tsktree')
bad('C39', 'sklearn_tree.go', '\tif n.Splitter != nil {\n\t\tsktree', '\tif n.Splitter != nil && depth < 50 {\n\t\tsktree')
bad('C39', 'sklearn_tree.go', '`json:"left_child"`', '`json:"right_child"`', ('sklearn_tree.go', 'RightChild           int     `json:"right_child"`', 'RightChild           int     `json:"left_child"`'))
bad('C39', 'sklearn_tree.go', '`json:"threshold"`', '`json:"threshold,omitempty"`')
bad('C39', 'sklearn_tree.go', '`json:"node_count"`', '`json:"nodeCount"`')
bad('C39', 'sklearn_tree.go', '\t\tNodeCount:   0,', '\t\tNodeCount:   1,')
bad('C39', 'sklearn_tree.go', 'make([]ScikitNode, 0)', 'make([]ScikitNode, 1)')
bad('C39', 'sklearn_tree.go', '\t\tBuildScikitTree(depth, n.Left, sktree)', '\t\tif n.Left.Splitter != nil {\n\t\t\tBuildScikitTree(depth, n.Left, sktree)\n\t\t}')
bad('C39', 'growforest/growforest.go', '\t\t\t\t\t\tskt := CloudForest.NewScikitTree(nFeatures)\n\t\t\t\t\t\tCloudForest.BuildScikitTree(0, tree.Root, skt)\n\t\t\t\t\t\tscikikittrees = append(scikikittrees, *skt)\n', '\t\t\t\t\t\tskt := CloudForest.NewScikitTree(nFeatures)\n\t\t\t\t\t\tscikikittrees = append(scikikittrees, *skt)\n\t\t\t\t\t\tCloudForest.BuildScikitTree(0, tree.Root, skt)\n')
bad('C39', 'growforest/growforest.go', 'CloudForest.BuildScikitTree(0, tree.Root, skt)', 'CloudForest.BuildScikitTree(1, tree.Root, skt)')
bad('C39', 'growforest/growforest.go', 'CloudForest.BuildScikitTree(0, tree.Root, skt)', 'CloudForest.BuildScikitTree(0, tree.Root.Left, skt)')
bad('C39', 'growforest/growforest.go', '\t\t\t\t\t\tscikikittrees = append(scikikittrees, *skt)\n', '\t\t\t\t\t\tif skt.MaxDepth > 0 {\n\t\t\t\t\t\t\tscikikittrees = append(scikikittrees, *skt)\n\t\t\t\t\t\t}\n')
bad('C39', 'growforest/growforest.go', 'skencoder.Encode(scikikittrees)', 'skencoder.Encode(scikikittrees[1:])')
bad('C39', 'growforest/growforest.go', '\tif scikitforest != "" {\n\t\tskfile', '\tif scikitforest != "" && ace == 0 {\n\t\tskfile')
bad('C39', 'growforest/growforest.go', 'os.Create(scikitforest)', 'os.Create(scikitforest + ".json")')
quiet('C39', 'sklearn_tree.go', '\t\tsktree.Nodes[pos].Feature = n.Featurei\n\t\tsktree.Nodes[pos].Threshold = n.Splitter.Value\n\t\tsktree.Nodes[pos].LeftChild = sktree.NodeCount\n', '\t\tnode := &sktree.Nodes[pos]\n\t\tnode.LeftChild = pos + 1\n\t\tnode.Threshold = n.Splitter.Value\n\t\tnode.Feature = n.Featurei\n')
quiet('C39', 'sklearn_tree.go', '\t\tBuildScikitTree(depth, n.Left, sktree)\n\t\tsktree.Nodes[pos].RightChild = sktree.NodeCount\n', '\t\tBuildScikitTree(depth, n.Left, sktree)\n\t\tright := len(sktree.Nodes)\n\t\tsktree.Nodes[pos].RightChild = right\n')
quiet('C39', 'sklearn_tree.go', '\t\tsktree.Nodes[pos].RightChild = sktree.NodeCount\n\t\tBuildScikitTree(depth, n.Right, sktree)\n', '\t\tright := sktree.NodeCount\n\t\tBuildScikitTree(depth, n.Right, sktree)\n\t\tsktree.Nodes[pos].RightChild = right\n')
quiet('C39', 'sklearn_tree.go', '\tskn := ScikitNode{}\n', '\tskn := ScikitNode{LeftChild: -1, RightChild: -1}\n', ('sklearn_tree.go', '\t} else {\n\t\t// Leaf node\n\t\tsktree.Nodes[pos].LeftChild = -1\n\t\tsktree.Nodes[pos].RightChild = -1\n\t}\n', '\t}\n'))
quiet('C39', 'sklearn_tree.go', '\tif n.Splitter != nil {\n\t\tsktree', '\tif n.Splitter == nil {\n\t\tsktree.Nodes[pos].LeftChild, sktree.Nodes[pos].RightChild = -1, -1\n\t\treturn\n\t}\n\tif n.Splitter != nil {\n\t\tsktree')
quiet('C39', 'sklearn_tree.go', '\tpos := len(sktree.Nodes)\n', '\tpos := sktree.NodeCount - 1\n')
quiet('C39', 'sklearn_tree.go', '\t\tBuildScikitTree(depth, n.Left, sktree)\n', '\t\tsktree.grow(depth, n.Left)\n', ('sklearn_tree.go', '\t\tBuildScikitTree(depth, n.Right, sktree)\n', '\t\tsktree.grow(depth, n.Right)\n'), ('sklearn_tree.go', 'func BuildScikitTree(depth int, n *Node, sktree *ScikitTree) {', 'func BuildScikitTree(depth int, n *Node, sktree *ScikitTree) {\n\tsktree.grow(depth, n)\n}\n\nfunc (sktree *ScikitTree) grow(depth int, n *Node) {'))
quiet('C39', 'sklearn_tree.go', '\tsktree.Nodes = append(sktree.Nodes, skn)\n', '\tsktree.Nodes = append(sktree.Nodes, skn)\n\t_ = pos\n', ('sklearn_tree.go', '\tif depth > sktree.MaxDepth {\n\t\tsktree.MaxDepth = depth\n\t}\n', '\tsktree.deepen(depth)\n'), ('sklearn_tree.go', '// BuildScikkit', 'func (t *ScikitTree) deepen(d int) {\n\tif t.MaxDepth >= d {\n\t\treturn\n\t}\n\tt.MaxDepth = d\n}\n\n// BuildScikkit'))
quiet('C39', 'growforest/growforest.go', '\t\t\t\t\t\tskt := CloudForest.NewScikitTree(nFeatures)\n\t\t\t\t\t\tCloudForest.BuildScikitTree(0, tree.Root, skt)\n\t\t\t\t\t\tscikikittrees = append(scikikittrees, *skt)\n', '\t\t\t\t\t\tscikikittrees = append(scikikittrees, convert(tree, nFeatures))\n', ('growforest/growforest.go', 'func main() {', 'func convert(t *CloudForest.Tree, n int) CloudForest.ScikitTree {\n\tskt := CloudForest.NewScikitTree(n)\n\tCloudForest.BuildScikitTree(0, t.Root, skt)\n\treturn *skt\n}\n\nfunc main() {'))
quiet('C39', 'growforest/growforest.go', '\t\tskencoder := json.NewEncoder(skfile)\n\t\terr = skencoder.Encode(scikikittrees)\n\t\tif err != nil {', '\t\tif err = json.NewEncoder(skfile).Encode(scikikittrees); err != nil {')
bad('C40', 'utils.go', 'parsed = int(math.Ceil(frac * float64(total)))', 'parsed = int(math.Floor(frac * float64(total)))')
bad('C40', 'utils.go', 'parsed = int(math.Ceil(frac * float64(total)))', 'parsed = int(math.Ceil(frac * float64(total-1)))')
bad('C40', 'utils.go', 'strconv.ParseInt(term, 0, 0)', 'strconv.ParseInt(term, 16, 0)')
bad('C40', 'utils.go', '\t\tif err != nil {\n\t\t\tparsed = 0\n\t\t} else {\n\t\t\tparsed = int(count)\n\t\t}', '\t\tif err != nil {\n\t\t\tparsed = total\n\t\t} else {\n\t\t\tparsed = int(count)\n\t\t}')
bad('C40', 'utils.go', '\t\t\tparsed = int(count)', '\t\t\tif int(count) <= total {\n\t\t\t\tparsed = int(count)\n\t\t\t}')
quiet('C40', 'utils.go', '\tif strings.Contains(term, ".") {\n\t\tfrac, err := strconv.ParseFloat(term, 64)\n\t\tif err == nil {\n\t\t\tparsed = int(math.Ceil(frac * float64(total)))\n\t\t} else {\n\t\t\tparsed = 0\n\t\t}\n\t} else {\n\t\tcount, err := strconv.ParseInt(term, 0, 0)\n\t\tif err != nil {\n\t\t\tparsed = 0\n\t\t} else {\n\t\t\tparsed = int(count)\n\t\t}\n\n\t}\n\treturn\n', '\tif !strings.Contains(term, ".") {\n\t\tcount, err := strconv.ParseInt(term, 0, 0)\n\t\tif err != nil {\n\t\t\treturn 0\n\t\t}\n\t\treturn int(count)\n\t}\n\tfrac, err := strconv.ParseFloat(term, 64)\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn int(math.Ceil(float64(total) * frac))\n')
quiet('C40', 'utils.go', '\tif term == "" {\n\t\treturn 0\n\t}\n\n\tif strings.Contains(term, ".")', '\tif len(term) == 0 {\n\t\treturn\n\t}\n\n\tif strings.Contains(term, ".")')
bad('C40', 'growforest/growforest.go', 'tree.Grow(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)', 'tree.Grow(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, vet, force, evaloob, extra, imppnt, depthUsed, allocs)')
bad('C40', 'growforest/growforest.go', 'tree.Grow(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)', 'tree.Grow(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing && !impute, force, vet, evaloob, extra, imppnt, depthUsed, allocs)')
bad('C40', 'growforest/growforest.go', 'tree.Grow(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)', 'tree.Grow(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, false, imppnt, depthUsed, allocs)')
bad('C40', 'growforest/growforest.go', 'tree.Grow(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)', 'tree.Grow(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob && !nobag, extra, imppnt, depthUsed, allocs)')
bad('C40', 'growforest/growforest.go', 'tree.Grow(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)', 'tree.Grow(data, target, cases, canidates, oobcases, leafSize, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)')
bad('C40', 'growforest/growforest.go', '\t\t\t\t\tif jungle {', '\t\t\t\t\tif jungle && !splitmissing {')
bad('C40', 'growforest/growforest.go', '\t\t\t\t\tif jungle {', '\t\t\t\t\tif jungle || splitmissing {')
bad('C40', 'growforest/growforest.go', '\tmTry := CloudForest.ParseAsIntOrFractionOfTotal(StringmTry, nFeatures)\n\tif mTry <= 0 {', '\tmTry := CloudForest.ParseAsIntOrFractionOfTotal(StringmTry, nFeatures)\n\tif mTry <= 1 {')
bad('C40', 'growforest/growforest.go', '\t\tmTry = int(math.Ceil(math.Sqrt(float64(nFeatures))))', '\t\tmTry = int(math.Ceil(math.Sqrt(float64(len(data.Data)))))')
bad('C40', 'growforest/growforest.go', '\t\tmTry = int(math.Ceil(math.Sqrt(float64(nFeatures))))', '\t\tmTry = int(math.Sqrt(float64(nFeatures)))')
bad('C40', 'growforest/growforest.go', '\t\t\t\tmTry = CloudForest.ParseAsIntOrFractionOfTotal(StringmTry, sigcount)\n', '\t\t\t\tmTry = CloudForest.ParseAsIntOrFractionOfTotal(StringnSamples, sigcount)\n')
bad('C40', 'growforest/growforest.go', '\tfmt.Printf("mTry : %v\\n", mTry)', '\tif mTry > 100 {\n\t\tmTry = 100\n\t}\n\tfmt.Printf("mTry : %v\\n", mTry)')
bad('C40', 'growforest/growforest.go', '\tif multiboost {\n', '\tif vet {\n\t\tforce = false\n\t}\n\tif multiboost {\n')
bad('C40', 'growforest/growforest.go', '\tfmt.Printf("mTry : %v\\n", mTry)', '\tif jungle {\n\t\tsplitmissing = false\n\t}\n\tfmt.Printf("mTry : %v\\n", mTry)')
bad('C40', 'growforest/growforest.go', 'NewNPTarget(targetf.(CloudForest.CatFeature), NP_pos, NP_a, NP_k)', 'NewNPTarget(targetf.(CloudForest.CatFeature), NP_pos, NP_k, NP_a)')
bad('C40', 'growforest/growforest.go', 'NewNPTarget(targetf.(CloudForest.CatFeature), NP_pos, NP_a, NP_k)', 'NewNPTarget(targetf.(CloudForest.CatFeature), positive, NP_a, NP_k)')
bad('C40', 'growforest/growforest.go', 'json.Unmarshal([]byte(*dentropy), &costmap)', 'json.Unmarshal([]byte(*costs), &costmap)')
bad('C40', 'growforest/growforest.go', '\t\t\t\tdeTarg.SetCosts(costmap)\n', '')
bad('C40', 'growforest/growforest.go', '\t\t\t\tactarget.SetCosts(costmap)\n', '\t\t\t\tactarget.SetCosts(make(map[string]float64))\n')
bad('C40', 'growforest/growforest.go', '\t\t\t\ttargetf = regTarg\n', '\t\t\t\t_ = regTarg\n')
bad('C40', 'growforest/growforest.go', 'NewWRFTarget(targetf.(CloudForest.CatFeature), weightmap)', 'NewWRFTarget(targetf.(CloudForest.CatFeature), nil)')
bad('C40', 'growforest/growforest.go', '\t\t\tcase entropy:\n', '\t\t\tcase entropy && targetf.NCats() > 2:\n')
bad('C40', 'growforest/growforest.go', '\t\t\tcase entropy:\n', '\t\t\tcase entropy || targetf.NCats() > 20:\n')
bad('C40', 'growforest/growforest.go', '\t\t\tcase hellinger:\n', '\t\t\tcase hellinger && !force:\n')
bad('C40', 'growforest/growforest.go', 'NewHDistanceTarget(targetf.(CloudForest.CatFeature), positive)', 'NewHDistanceTarget(targetf.(CloudForest.CatFeature), NP_pos)')
bad('C40', 'growforest/growforest.go', 'NewGradBoostClassTarget(targetf.(CloudForest.CatFeature), gradboost, positive)', 'NewGradBoostClassTarget(targetf.(CloudForest.CatFeature), 0.1, positive)')
bad('C40', 'growforest/growforest.go', '\t\t\tif unlabeled != "" {', '\t\t\tif unlabeled != "" && !NP {')
bad('C40', 'growforest/growforest.go', 'unlabeled, trans_alpha, trans_beta, nNonMissing)', 'unlabeled, trans_beta, trans_alpha, nNonMissing)')
bad('C40', 'growforest/growforest.go', '\t\t\tif l1 {', '\t\t\tif l1 && !ordinal {')
bad('C40', 'growforest/growforest.go', '\t\t\tif ordinal {', '\t\t\tif ordinal && gradboost == 0.0 {')
bad('C40', 'growforest/growforest.go', '\tif density {\n', '\tif density && targetf.NCats() == 0 {\n')
bad('C40', 'growforest/growforest.go', 'NewGradBoostTarget(targetf.(CloudForest.NumFeature), gradboost)', 'NewGradBoostTarget(targetf.(CloudForest.NumFeature), trans_alpha)')
bad('C40', 'growforest/growforest.go', '\t\t\ttarget = targetf\n\n\t\tcase CloudForest.CatFeature:', '\t\t\ttarget = unboostedTarget\n\n\t\tcase CloudForest.CatFeature:')
bad('C40', 'growforest/growforest.go', '\t\t\t\ttargetf = CloudForest.NewNumAdaBoostTarget(targetf.(CloudForest.NumFeature))\n', '\t\t\t\ttargetf = CloudForest.NewNumAdaBoostTarget(targetf.(CloudForest.NumFeature))\n\t\t\t\ttargetf = unboostedTarget\n')
quiet('C40', 'growforest/growforest.go', '\t\t\tif l1 {\n\t\t\t\tfmt.Println("Using l1/absolute deviance error.")\n\t\t\t\ttargetf = &CloudForest.L1Target{targetf.(CloudForest.NumFeature)}\n\t\t\t}\n\t\t\tif ordinal {', '\t\t\tuseL1 := l1\n\t\t\tif useL1 {\n\t\t\t\tfmt.Println("Using l1/absolute deviance error.")\n\t\t\t\tl1t := &CloudForest.L1Target{NumFeature: targetf.(CloudForest.NumFeature)}\n\t\t\t\ttargetf = l1t\n\t\t\t}\n\t\t\tif ordinal {')
quiet('C40', 'growforest/growforest.go', '\t\t\tswitch {\n\t\t\tcase gradboost != 0.0:\n\t\t\t\tfmt.Println("Using Gradient Boosting.")\n\t\t\t\ttargetf = CloudForest.NewGradBoostTarget(targetf.(CloudForest.NumFeature), gradboost)\n\n\t\t\tcase adaboost:\n\t\t\t\tfmt.Println("Using Numeric Adaptive Boosting.")\n\t\t\t\ttargetf = CloudForest.NewNumAdaBoostTarget(targetf.(CloudForest.NumFeature))\n\t\t\t}\n', '\t\t\tif gradboost != 0.0 {\n\t\t\t\tfmt.Println("Using Gradient Boosting.")\n\t\t\t\ttargetf = CloudForest.NewGradBoostTarget(targetf.(CloudForest.NumFeature), gradboost)\n\t\t\t} else if adaboost {\n\t\t\t\tfmt.Println("Using Numeric Adaptive Boosting.")\n\t\t\t\ttargetf = CloudForest.NewNumAdaBoostTarget(targetf.(CloudForest.NumFeature))\n\t\t\t}\n')
quiet('C40', 'growforest/growforest.go', '\t\t\t\tcostmap := make(map[string]float64)\n\t\t\t\terr := json.Unmarshal([]byte(*costs), &costmap)\n\t\t\t\tif err != nil {\n\t\t\t\t\tlog.Fatal(err)\n\t\t\t\t}\n', '\t\t\t\tcostmap := readCosts(*costs)\n', ('', 'func main() {', 'func readCosts(text string) map[string]float64 {\n\tm := make(map[string]float64)\n\tif err := json.Unmarshal([]byte(text), &m); err != nil {\n\t\tlog.Fatal(err)\n\t}\n\treturn m\n}\n\nfunc main() {'))
quiet('C40', 'growforest/growforest.go', '\t\t\t\tcostmap := make(map[string]float64)\n\t\t\t\terr := json.Unmarshal([]byte(*costs), &costmap)\n\t\t\t\tif err != nil {\n\t\t\t\t\tlog.Fatal(err)\n\t\t\t\t}\n', '\t\t\t\tcostmap := readCosts(*costs)\n', ('', '\t\t\t\tcostmap := make(map[string]float64)\n\t\t\t\terr := json.Unmarshal([]byte(*dentropy), &costmap)\n\t\t\t\tif err != nil {\n\t\t\t\t\tlog.Fatal(err)\n\t\t\t\t}\n', '\t\t\t\tcostmap := readCosts(*dentropy)\n'), ('', '\t\t\t\tweightmap := make(map[string]float64)\n\t\t\t\terr := json.Unmarshal([]byte(*rfweights), &weightmap)\n\t\t\t\tif err != nil {\n\t\t\t\t\tlog.Fatal(err)\n\t\t\t\t}\n', '\t\t\t\tweightmap := readCosts(*rfweights)\n'), ('', 'func main() {', 'func readCosts(text string) map[string]float64 {\n\tm := make(map[string]float64)\n\tif err := json.Unmarshal([]byte(text), &m); err != nil {\n\t\tlog.Fatal(err)\n\t}\n\treturn m\n}\n\nfunc main() {'))
quiet('C40', 'growforest/growforest.go', '\tmTry := CloudForest.ParseAsIntOrFractionOfTotal(StringmTry, nFeatures)\n\tif mTry <= 0 {\n\n\t\tmTry = int(math.Ceil(math.Sqrt(float64(nFeatures))))\n\t}\n', '\tmTry := tries(StringmTry, nFeatures)\n', ('', '\t\t\t\tmTry = CloudForest.ParseAsIntOrFractionOfTotal(StringmTry, sigcount)\n\t\t\t\tif mTry <= 0 {\n\n\t\t\t\t\tmTry = int(math.Ceil(math.Sqrt(float64(sigcount))))\n\t\t\t\t}\n', '\t\t\t\tmTry = tries(StringmTry, sigcount)\n'), ('', 'func main() {', 'func tries(text string, n int) int {\n\tm := CloudForest.ParseAsIntOrFractionOfTotal(text, n)\n\tif m > 0 {\n\t\treturn m\n\t}\n\treturn int(math.Ceil(math.Sqrt(float64(n))))\n}\n\nfunc main() {'))
quiet('C40', 'growforest/growforest.go', '\t\t\t\t\tif jungle {\n\t\t\t\t\t\ttree.GrowJungle(', '\t\t\t\t\tif plain := !jungle; !plain {\n\t\t\t\t\t\ttree.GrowJungle(')
quiet('C40', 'growforest/growforest.go', '\t\t\tcase NP:\n\t\t\t\tfmt.Printf("Performing Approximate', '\t\t\tcase NP == true:\n\t\t\t\tfmt.Printf("Performing Approximate')
quiet('C40', 'growforest/growforest.go', '\t\t\tif unlabeled != "" {', '\t\t\tif len(unlabeled) > 0 {')
bad('C40', 'tree.go', '\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, nconstantsbefore)', '\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, innercases, &candidates, mTry, &oob, leafSize, vet, force, evaloob, extraRandom, allocs, nconstantsbefore)')
bad('C40', 'tree.go', '\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, nconstantsbefore)', '\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, false, allocs, nconstantsbefore)')
bad('C40', 'tree.go', '\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, nconstantsbefore)', '\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, innercases, &candidates, mTry+depth, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, nconstantsbefore)')
bad('C40', 'tree.go', '\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, nconstantsbefore)', '\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, innercases, &candidates, mTry, &oob, leafSize, force, vet, vet, extraRandom, allocs, nconstantsbefore)')
bad('C40', 'tree.go', '\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, nconstantsbefore)', '\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, innercases, &candidates, mTry, innercases, leafSize, force, vet, evaloob, extraRandom, allocs, nconstantsbefore)')
bad('C40', 'tree.go', '\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, nconstantsbefore)', '\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, innercases, &candidates, mTry, &oob, leafSize, force || depth == 0, vet, evaloob, extraRandom, allocs, nconstantsbefore)')
bad('C40', 'tree.go', '\t\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, &innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, nconstants)', '\t\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, &innercases, &candidates, mTry, &oob, leafSize, vet, force, evaloob, extraRandom, allocs, nconstants)')
bad('C40', 'tree.go', '\t\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, &innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, nconstants)', '\t\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, &innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, false, allocs, nconstants)')
bad('C40', 'tree.go', '\t\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, &innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, nconstants)', '\t\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, &innercases, &candidates, len(candidates), &oob, leafSize, force, vet, evaloob, extraRandom, allocs, nconstants)')
bad('C40', 'forrest.go', 'mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, false, importance', 'mTry, leafSize, maxDepth, splitmissing, vet, force, evaloob, false, importance')
bad('C40', 'forrest.go', 'mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, false, importance', 'mTry, leafSize, maxDepth, evaloob, force, vet, evaloob, false, importance')
bad('C40', 'forrest.go', 'mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, false, importance', 'len(candidates), leafSize, maxDepth, splitmissing, force, vet, evaloob, false, importance')
bad('C40', 'forrest.go', 'mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, false, importance', 'mTry, leafSize, maxDepth, splitmissing, force || vet, vet, evaloob, false, importance')
quiet('C40', 'tree.go', '\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, innercases, &candidates, mTry, &oob, leafSize, force, vet, evaloob, extraRandom, allocs, nconstantsbefore)', '\t\t\ttries, randomly := mTry, extraRandom\n\t\t\tfi, split, impDec, nconstants = fm.BestSplitter(target, innercases, &candidates, tries, &oob, leafSize, force, vet, evaloob, randomly, allocs, nconstantsbefore)')
bad('C40', 'featurematrix.go', 'f.BestSplit(target, cases, parentImp, leafSize, extraRandom, allocs)', 'f.BestSplit(target, cases, parentImp, leafSize, extraRandom && !vet, allocs)')
bad('C40', 'featurematrix.go', 'casept, parentImp, leafSize, extraRandom, allocs)', 'casept, parentImp, leafSize, false, allocs)')
bad('C40', 'featurematrix.go', 'for j := 0; (force && j >= mTry && j <= nDrawnConstants) || j < mTry; j++ {', 'for j := 0; (force && j >= mTry && j <= nDrawnConstants) || j <= mTry; j++ {')
bad('C40', 'featurematrix.go', 'for j := 0; (force && j >= mTry && j <= nDrawnConstants) || j < mTry; j++ {', 'for j := 0; (j >= mTry && j <= nDrawnConstants) || j < mTry; j++ {')
bad('C40', 'featurematrix.go', 'for j := 0; (force && j >= mTry && j <= nDrawnConstants) || j < mTry; j++ {', 'for j := 0; (force && j >= mTry && j <= nDrawnConstants) || j < mTry || bestSplit == nil && j < lcans; j++ {')
bad('C40', 'featurematrix.go', '\t\t\t\tnDrawnConstants++\n\t\t\t\tcontinue', '\t\t\t\tnDrawnConstants++\n\t\t\t\tj--\n\t\t\t\tcontinue')
quiet('C40', 'featurematrix.go', 'for j := 0; (force && j >= mTry && j <= nDrawnConstants) || j < mTry; j++ {', 'for j := 0; j < mTry || (force && j <= nDrawnConstants); j++ {')
quiet('C40', 'featurematrix.go', 'for j := 0; (force && j >= mTry && j <= nDrawnConstants) || j < mTry; j++ {', 'for j := 0; ; j++ {\n\t\tif j >= mTry && !(force && j <= nDrawnConstants) {\n\t\t\tbreak\n\t\t}\n')
quiet('C40', 'featurematrix.go', 'for j := 0; (force && j >= mTry && j <= nDrawnConstants) || j < mTry; j++ {', 'more := func(j, drawn int) bool {\n\t\treturn j < mTry || force && j <= drawn\n\t}\n\tfor j := 0; more(j, nDrawnConstants); j++ {')
bad('C40', 'densenumfeature.go', '\t\tif randomSplit  && stop > leafSize {', '\t\tif (randomSplit || ncases > 100) && stop > leafSize {')
bad('C40', 'densenumfeature.go', '\t\tif randomSplit  && stop > leafSize {', '\t\tif stop > leafSize && ncases > 1000 {')
bad('C40', 'densenumfeature.go', 'nonmissingparentImp, leafSize, randomSplit, allocs)\n\n\tif f.HasMissing', 'nonmissingparentImp, leafSize, randomSplit && !f.HasMissing, allocs)\n\n\tif f.HasMissing')
quiet('C40', 'densenumfeature.go', '\t\tif randomSplit  && stop > leafSize {\n\t\t\tleafSize = leafSize + allocs.Rnd.Intn(stop-leafSize)', '\t\tif stop > leafSize && randomSplit {\n\t\t\troom := stop - leafSize\n\t\t\tleafSize += allocs.Rnd.Intn(room)')
quiet('C12', 'adacosttarget.go', '\tvar m, mc int\n\n\tfor i, c := range *counter {\n\t\tif c > mc {\n\t\t\tm = i\n\t\t\tmc = c\n\t\t}\n\t}\n\n\tfor _, c := range *cases {\n\n\t\tcat := target.Geti(c)', '\tvar m int\n\n\tfor i := range *counter {\n\t\tif (*counter)[i] > (*counter)[m] {\n\t\t\tm = i\n\t\t}\n\t}\n\n\tfor _, c := range *cases {\n\n\t\tcat := target.Geti(c)')
bad('C12', 'adacosttarget.go', '\tvar m, mc int\n\n\tfor i, c := range *counter {\n\t\tif c > mc {\n\t\t\tm = i\n\t\t\tmc = c\n\t\t}\n\t}\n\n\tfor _, c := range *cases {\n\n\t\tcat := target.Geti(c)', '\tvar m int\n\n\tfor i := range *counter {\n\t\tif (*counter)[i] >= (*counter)[m] {\n\t\t\tm = i\n\t\t}\n\t}\n\n\tfor _, c := range *cases {\n\n\t\tcat := target.Geti(c)')
bad('C12', 'adacosttarget.go', '\tvar m, mc int\n\n\tfor i, c := range *counter {\n\t\tif c > mc {\n\t\t\tm = i\n\t\t\tmc = c\n\t\t}\n\t}\n\n\tfor _, c := range *cases {\n\n\t\tcat := target.Geti(c)', '\tvar m int\n\n\tfor i := range *counter {\n\t\tif (*counter)[i] < (*counter)[m] {\n\t\t\tm = i\n\t\t}\n\t}\n\n\tfor _, c := range *cases {\n\n\t\tcat := target.Geti(c)')
bad('C12', 'adacosttarget.go', '\tvar m, mc int\n\n\tfor i, c := range *counter {\n\t\tif c > mc {\n\t\t\tm = i\n\t\t\tmc = c\n\t\t}\n\t}\n\n\tfor _, c := range *cases {\n\n\t\tcat := target.Geti(c)', '\tvar m int\n\n\tfor i := range *counter {\n\t\tif (*counter)[m] > 0 && (*counter)[i] > (*counter)[m] {\n\t\t\tm = i\n\t\t}\n\t}\n\n\tfor _, c := range *cases {\n\n\t\tcat := target.Geti(c)')
bad('C12', 'adacosttarget.go', '\tvar m, mc int\n\n\tfor i, c := range *counter {\n\t\tif c > mc {\n\t\t\tm = i\n\t\t\tmc = c\n\t\t}\n\t}\n\n\tfor _, c := range *cases {\n\n\t\tcat := target.Geti(c)', '\tvar m int\n\n\tfor i := range *counter {\n\t\tif (*counter)[i]+1 > (*counter)[m] {\n\t\t\tm = i\n\t\t}\n\t}\n\n\tfor _, c := range *cases {\n\n\t\tcat := target.Geti(c)')
quiet('C26', 'adacosttarget.go', '\t\tvar m, mc int\n\t\tfor i, c := range counter {\n\t\t\tif c > mc {\n\t\t\t\tm = i\n\t\t\t\tmc = c\n\t\t\t}\n\t\t}\n', '\t\tm := 0\n\t\tfor i := range counter {\n\t\t\tif counter[i] > counter[m] {\n\t\t\t\tm = i\n\t\t\t}\n\t\t}\n')
bad('C26', 'adacosttarget.go', '\t\tvar m, mc int\n\t\tfor i, c := range counter {\n\t\t\tif c > mc {\n\t\t\t\tm = i\n\t\t\t\tmc = c\n\t\t\t}\n\t\t}\n', '\t\tm := 0\n\t\tfor i := range counter {\n\t\t\tif counter[i] >= counter[m] {\n\t\t\t\tm = i\n\t\t\t}\n\t\t}\n')
bad('C26', 'adacosttarget.go', '\t\tvar m, mc int\n\t\tfor i, c := range counter {\n\t\t\tif c > mc {\n\t\t\t\tm = i\n\t\t\t\tmc = c\n\t\t\t}\n\t\t}\n', '\t\tm := 0\n\t\tfor i := range counter {\n\t\t\tif counter[i] < counter[m] {\n\t\t\t\tm = i\n\t\t\t}\n\t\t}\n')
bad('C26', 'adacosttarget.go', '\t\tvar m, mc int\n\t\tfor i, c := range counter {\n\t\t\tif c > mc {\n\t\t\t\tm = i\n\t\t\t\tmc = c\n\t\t\t}\n\t\t}\n', '\t\tm := 0\n\t\tfor i := range counter {\n\t\t\tif counter[i] > counter[0] {\n\t\t\t\tm = i\n\t\t\t}\n\t\t}\n')
quiet('C33', 'catballotbox.go', '\tbb.Box[casei].Mutex.Lock()\n\tif _, ok := bb.Box[casei].Map[predn]; !ok {\n\t\tbb.Box[casei].Map[predn] = 0\n\t}\n\tbb.Box[casei].Map[predn] = bb.Box[casei].Map[predn] + weight\n\tbb.Box[casei].Mutex.Unlock()\n', '\tbox := bb.Box[casei]\n\tbox.Mutex.Lock()\n\tdefer box.Mutex.Unlock()\n\tbox.Map[predn] += weight\n', ('catballotbox.go', '\tfor k, v := range bb.Box[i].Map {\n\t\t//break ties by label, neither map order nor the order of the votes is reproducible\n\t\tif v > votes || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {\n\t\t\tpredictedn = k\n\t\t\tvotes = v\n\n\t\t}\n\n\t}\n\tbb.Box[i].Mutex.Unlock()\n\tif votes > 0 {\n\t\tpredicted = bb.Back[predictedn]\n\t} else {\n\t\tpredicted = "NA"\n\t}\n\n\treturn\n', '\tfor k, v := range bb.Box[i].Map {\n\t\t//break ties by label, neither map order nor the order of the votes is reproducible\n\t\tbetter := v > votes\n\t\tif v == votes && votes > 0 {\n\t\t\tbetter = bb.Back[k] < bb.Back[predictedn]\n\t\t}\n\t\tif better {\n\t\t\tpredictedn, votes = k, v\n\t\t}\n\t}\n\tbb.Box[i].Mutex.Unlock()\n\tif votes <= 0 {\n\t\treturn "NA"\n\t}\n\treturn bb.Back[predictedn]\n'))
quiet('C27', 'catballotbox.go', '\tbb.Box[casei].Mutex.Lock()\n\tif _, ok := bb.Box[casei].Map[predn]; !ok {\n\t\tbb.Box[casei].Map[predn] = 0\n\t}\n\tbb.Box[casei].Map[predn] = bb.Box[casei].Map[predn] + weight\n\tbb.Box[casei].Mutex.Unlock()\n', '\tbox := bb.Box[casei]\n\tbox.Mutex.Lock()\n\tdefer box.Mutex.Unlock()\n\tbox.Map[predn] += weight\n', ('catballotbox.go', '\tfor k, v := range bb.Box[i].Map {\n\t\t//break ties by label, neither map order nor the order of the votes is reproducible\n\t\tif v > votes || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {\n\t\t\tpredictedn = k\n\t\t\tvotes = v\n\n\t\t}\n\n\t}\n\tbb.Box[i].Mutex.Unlock()\n\tif votes > 0 {\n\t\tpredicted = bb.Back[predictedn]\n\t} else {\n\t\tpredicted = "NA"\n\t}\n\n\treturn\n', '\tfor k, v := range bb.Box[i].Map {\n\t\t//break ties by label, neither map order nor the order of the votes is reproducible\n\t\tbetter := v > votes\n\t\tif v == votes && votes > 0 {\n\t\t\tbetter = bb.Back[k] < bb.Back[predictedn]\n\t\t}\n\t\tif better {\n\t\t\tpredictedn, votes = k, v\n\t\t}\n\t}\n\tbb.Box[i].Mutex.Unlock()\n\tif votes <= 0 {\n\t\treturn "NA"\n\t}\n\treturn bb.Back[predictedn]\n'))
quiet('C07', 'tree.go', '\t\tsplit = nil\n\t\tn.CodedSplit = nil\n\t\tn.Splitter = nil\n\t\tn.Left = nil\n\t\tn.Right = nil\n\t\tn.Missing = nil\n\t\tn.Pred = target.FindPredicted(*innercases)\n\t\treturn\n\n\t}, fm, &cases, 0, 0)\n', '\t\tn.makeLeaf(target.FindPredicted(*innercases))\n\t\treturn fi, nil, nconstants\n\t}, fm, &cases, 0, 0)\n', ('tree.go', 'func (t *Tree) Grow(fm', 'func (n *Node) makeLeaf(pred string) {\n\t*n = Node{Pred: pred, Featurei: n.Featurei}\n}\n\nfunc (t *Tree) Grow(fm'))
quiet('C08', 'tree.go', '\t\tsplit = nil\n\t\tn.CodedSplit = nil\n\t\tn.Splitter = nil\n\t\tn.Left = nil\n\t\tn.Right = nil\n\t\tn.Missing = nil\n\t\tn.Pred = target.FindPredicted(*innercases)\n\t\treturn\n\n\t}, fm, &cases, 0, 0)\n', '\t\tn.makeLeaf(target.FindPredicted(*innercases))\n\t\treturn fi, nil, nconstants\n\t}, fm, &cases, 0, 0)\n', ('tree.go', 'func (t *Tree) Grow(fm', 'func (n *Node) makeLeaf(pred string) {\n\t*n = Node{Pred: pred, Featurei: n.Featurei}\n}\n\nfunc (t *Tree) Grow(fm'))
quiet('C24', 'growforest/growforest.go', '\t\t\t\tcanidates := make([]int, 0, len(data.Data))\n\t\t\t\tfor i := 0; i < len(data.Data); i++ {\n\t\t\t\t\tif i != targeti && !blacklistis[i] {\n\t\t\t\t\t\tcanidates = append(canidates, i)\n\t\t\t\t\t}\n\t\t\t\t}\n', '\t\t\t\tcanidates := candidates(len(data.Data), targeti, blacklistis)\n', ('growforest/growforest.go', 'func main() {', 'func candidates(n, targeti int, blacklisted []bool) (is []int) {\n\tis = make([]int, 0, n)\n\tfor i, black := range blacklisted {\n\t\tif black || i == targeti {\n\t\t\tcontinue\n\t\t}\n\t\tis = append(is, i)\n\t}\n\treturn\n}\n\nfunc main() {'))
quiet('C32', 'growforest/growforest.go', '\t\t\t\t\tif treesStarted < nTrees {\n\t\t\t\t\t\ttreesStarted++\n\t\t\t\t\t} else {\n\t\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t\t\twaitGroup.Done()\n\t\t\t\t\t\t}\n\t\t\t\t\t\tbreak\n\n\t\t\t\t\t}\n\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t}\n', '\t\t\t\t\tdone := treesStarted >= nTrees\n\t\t\t\t\tif !done {\n\t\t\t\t\t\ttreesStarted++\n\t\t\t\t\t}\n\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t}\n\t\t\t\t\tif done {\n\t\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\t\twaitGroup.Done()\n\t\t\t\t\t\t}\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n')
bad('C32', 'growforest/growforest.go', '\t\t\t\t\tif treesStarted < nTrees {\n\t\t\t\t\t\ttreesStarted++\n\t\t\t\t\t} else {\n\t\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t\t\twaitGroup.Done()\n\t\t\t\t\t\t}\n\t\t\t\t\t\tbreak\n\n\t\t\t\t\t}\n\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t}\n', '\t\t\t\t\tdone := treesStarted > nTrees\n\t\t\t\t\tif !done {\n\t\t\t\t\t\ttreesStarted++\n\t\t\t\t\t}\n\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t}\n\t\t\t\t\tif done {\n\t\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\t\twaitGroup.Done()\n\t\t\t\t\t\t}\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n')
bad('C32', 'growforest/growforest.go', '\t\t\t\t\tif treesStarted < nTrees {\n\t\t\t\t\t\ttreesStarted++\n\t\t\t\t\t} else {\n\t\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t\t\twaitGroup.Done()\n\t\t\t\t\t\t}\n\t\t\t\t\t\tbreak\n\n\t\t\t\t\t}\n\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t}\n', '\t\t\t\t\tdone := treesStarted >= nTrees-1\n\t\t\t\t\tif !done {\n\t\t\t\t\t\ttreesStarted++\n\t\t\t\t\t}\n\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t}\n\t\t\t\t\tif done {\n\t\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\t\twaitGroup.Done()\n\t\t\t\t\t\t}\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n')
bad('C32', 'growforest/growforest.go', '\t\t\t\t\tif treesStarted < nTrees {\n\t\t\t\t\t\ttreesStarted++\n\t\t\t\t\t} else {\n\t\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t\t\twaitGroup.Done()\n\t\t\t\t\t\t}\n\t\t\t\t\t\tbreak\n\n\t\t\t\t\t}\n\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t}\n', '\t\t\t\t\tdone := treesStarted >= nTrees\n\t\t\t\t\tif !done {\n\t\t\t\t\t\ttreesStarted++\n\t\t\t\t\t}\n\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t}\n\t\t\t\t\tif treesStarted >= nTrees {\n\t\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\t\twaitGroup.Done()\n\t\t\t\t\t\t}\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n')
bad('C32', 'growforest/growforest.go', '\t\t\t\t\tif treesStarted < nTrees {\n\t\t\t\t\t\ttreesStarted++\n\t\t\t\t\t} else {\n\t\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t\t\twaitGroup.Done()\n\t\t\t\t\t\t}\n\t\t\t\t\t\tbreak\n\n\t\t\t\t\t}\n\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t}\n', '\t\t\t\t\tdone := treesStarted >= nTrees\n\t\t\t\t\tif treesFinished < nTrees {\n\t\t\t\t\t\ttreesStarted++\n\t\t\t\t\t}\n\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\trecordingTree.Unlock()\n\t\t\t\t\t}\n\t\t\t\t\tif done {\n\t\t\t\t\t\tif nCores > 1 {\n\t\t\t\t\t\t\twaitGroup.Done()\n\t\t\t\t\t\t}\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n')
bad('C24', 'growforest/growforest.go', '\t\t\t\tcanidates := make([]int, 0, len(data.Data))\n\t\t\t\tfor i := 0; i < len(data.Data); i++ {\n\t\t\t\t\tif i != targeti && !blacklistis[i] {\n\t\t\t\t\t\tcanidates = append(canidates, i)\n\t\t\t\t\t}\n\t\t\t\t}\n', '\t\t\t\tcanidates := candidates(len(data.Data), targeti, blacklistis)\n', ('growforest/growforest.go', 'func main() {', 'func candidates(n, targeti int, blacklisted []bool) (is []int) {\n\tis = make([]int, 0, n)\n\tfor i, black := range blacklisted[1:] {\n\t\tif black || i == targeti {\n\t\t\tcontinue\n\t\t}\n\t\tis = append(is, i)\n\t}\n\treturn\n}\n\nfunc main() {'))
bad('C24', 'growforest/growforest.go', '\t\t\t\tcanidates := make([]int, 0, len(data.Data))\n\t\t\t\tfor i := 0; i < len(data.Data); i++ {\n\t\t\t\t\tif i != targeti && !blacklistis[i] {\n\t\t\t\t\t\tcanidates = append(canidates, i)\n\t\t\t\t\t}\n\t\t\t\t}\n', '\t\t\t\tcanidates := candidates(len(data.Data), targeti, blacklistis)\n', ('growforest/growforest.go', 'func main() {', 'func candidates(n, targeti int, blacklisted []bool) (is []int) {\n\tis = make([]int, 0, n)\n\tfor i, black := range blacklisted {\n\t\tif black {\n\t\t\tcontinue\n\t\t}\n\t\tis = append(is, i)\n\t}\n\treturn\n}\n\nfunc main() {'))
bad('C24', 'growforest/growforest.go', '\t\t\t\tcanidates := make([]int, 0, len(data.Data))\n\t\t\t\tfor i := 0; i < len(data.Data); i++ {\n\t\t\t\t\tif i != targeti && !blacklistis[i] {\n\t\t\t\t\t\tcanidates = append(canidates, i)\n\t\t\t\t\t}\n\t\t\t\t}\n', '\t\t\t\tcanidates := candidates(len(data.Data), targeti, blacklistis)\n', ('growforest/growforest.go', 'func main() {', 'func candidates(n, targeti int, blacklisted []bool) (is []int) {\n\tis = make([]int, 0, n)\n\tfor i, black := range blacklisted {\n\t\tif !black || i == targeti {\n\t\t\tcontinue\n\t\t}\n\t\tis = append(is, i)\n\t}\n\treturn\n}\n\nfunc main() {'))
