#!/usr/bin/env python3
"""apply.py REPO [NAME...]: applies behaviour-preserving rewrites to a copy of the repository; all checks must stay quiet on it."""
import sys,re
R=sys.argv[1]; only=sys.argv[2:]
def ed(name,f,*prs):
    if only and name not in only: return
    p=R+'/'+f; s=open(p).read()
    for o,n in prs:
        assert s.count(o)>=1,(name,f,o)
        s=s.replace(o,n,1)
    open(p,'w').write(s)
# one read of the whole set, then decoding
ed('set16','pkg/storage/set16.go',('''	*set16 = make(Set16, expectedLen)

	for i := 0; uint16(i) < expectedLen; i++ {
		if nextUint16, err = reader.ReadUint16(); err != nil {
			return int64(reader.BytesTaken()), fmt.Errorf("%v: readFrom: data[%v]: %w", ErrSet16, i, err)
		}

		(*set16)[i] = ID16(nextUint16)
	}

	return int64(reader.BytesTaken()), err
''','''	loaded := make(Set16, 0, expectedLen)

	for len(loaded) < int(expectedLen) {
		nextUint16, err = reader.ReadUint16()
		if err != nil {
			return int64(reader.BytesTaken()), fmt.Errorf("%v: readFrom: data[%v]: %w", ErrSet16, len(loaded), err)
		}

		loaded = append(loaded, ID16(nextUint16))
	}

	*set16 = loaded

	return int64(reader.BytesTaken()), nil
'''),('''	for idx, item := range set16 {
		if err = writer.WriteUint16(uint16(item)); err != nil {
			return int64(writer.BytesWritten()), fmt.Errorf("%v: writeTo: data[%d]: %w", ErrSet16, idx, err)
		}
	}

	return int64(writer.BytesWritten()), nil
}
''','''	idx, err := set16.writeItems(writer)
	if err != nil {
		err = fmt.Errorf("%v: writeTo: data[%d]: %w", ErrSet16, idx, err)
	}

	return int64(writer.BytesWritten()), err
}

// writeItems writes items one by one until error. Returns index of item failed.
func (set16 Set16) writeItems(writer *binutils.BinaryWriter) (idx int, err error) {
	for idx = 0; idx < len(set16) && err == nil; idx++ {
		err = writer.WriteUint16(uint16(set16[idx]))
	}

	return idx - 1, err
}
'''))
# recursion instead of loops, lock helper, read/write lock
ed('index-lock','internal/index/idx.go',
 ('''func (index *Index) FetchItemFromParent(parentID dag.ID, runes []rune) (*Node, error) {
	index.mu.Lock()
	defer index.mu.Unlock()

	return index.fetchNode(parentID, runes)
}
''','''func (index *Index) FetchItemFromParent(parentID dag.ID, runes []rune) (node *Node, err error) {
	index.locked(func() { node, err = index.fetchNode(parentID, runes) })

	return node, err
}

// locked runs specified function having index locked.
func (index *Index) locked(run func()) {
	index.mu.Lock()
	defer index.mu.Unlock()

	run()
}
'''),('''	index.mu.Lock()
	defer index.mu.Unlock()

	return index.wordsCount
''','''	var count int

	index.locked(func() { count = index.wordsCount })

	return count
'''),('''	for {
		firstRune := runes[currentIndex]
		childrenIDMap := index.childrenMap[currentParentID]
		if nextItemID, ok = childrenIDMap[firstRune]; !ok {
			return nil, fmt.Errorf("%w: fetch: not found: `%s[%s]`", Error, index.word(currentParentID), string(firstRune))
		}

		if currentIndex == len(runes)-1 {
			return index.GetItem(nextItemID), nil
		}

		currentParentID = nextItemID
		currentIndex += 1
	}
''','''	for ; currentIndex < len(runes); currentIndex++ {
		letter := runes[currentIndex]

		nextItemID, ok = index.childrenMap[currentParentID][letter]
		if !ok {
			return nil, fmt.Errorf("%w: fetch: not found: `%s[%s]`", Error, index.word(currentParentID), string(letter))
		}

		currentParentID = nextItemID
	}

	return index.GetItem(currentParentID), nil
'''),('''	index.tags = loaded.tags
	index.tagSets = loaded.tagSets
	index.collectionIdx = loaded.collectionIdx
	index.items = loaded.items
	index.childrenMap = loaded.childrenMap
	index.wordsCount = loaded.wordsCount

	return nil
''','''	mu := index.mu
	*index = *loaded
	index.mu = mu

	return nil
'''),('''	if err = index.writeTagsDefinitions(writer); err != nil {
		return err
	}
	if err = index.writeTagSetsDefinitions(writer); err != nil {
		return err
	}
	if err = index.writeCollectionsDefinitions(writer); err != nil {
		return err
	}
	if err = index.writeItemsDefinitions(writer); err != nil {
		return err
	}

	return nil
''','''	for _, write := range []func(*binutils.BinaryWriter) error{
		index.writeTagsDefinitions,
		index.writeTagSetsDefinitions,
		index.writeCollectionsDefinitions,
		index.writeItemsDefinitions,
	} {
		if err = write(writer); err != nil {
			break
		}
	}

	return err
'''))
ed('index-rw','internal/index/idx.go',*([('new(sync.Mutex)','new(sync.RWMutex)')]))
if not only or 'index-rw' in only:
    import glob
    for p in [R+'/internal/index/idx.go',R+'/internal/index/node.go']:
        s=open(p).read()
        s=re.sub(r'mu( +)\*sync\.Mutex',r'mu\1*sync.RWMutex',s)
        # read only functions
        for fn in ('func (index *Index) FetchFromItem','func (index *Index) NodesCount','func (node Node) Item','func (node *Node) TagSets','func (node *Node) Word','func (node *Node) String','func (index *Index) Variants','func (index *Index) BinaryWriteTo','func (index *Index) TagSetIndex','func (index *Index) GetChildrenMap','func (index *Index) GetChildrenIDMap'):
            i=s.find(fn)
            if i<0: continue
            j=s.index('\n}\n',i); b=s[i:j]
            s=s[:i]+b.replace('mu.Lock()','mu.RLock()').replace('mu.Unlock()','mu.RUnlock()')+s[j:]
        open(p,'w').write(s)
# buffer the whole file, then one write; load from memory
ed('buffer','pkg/opencorpora/loader.go',('''		return mainIndex.BinaryWriteTo(binutils.NewBinaryWriter(file))
''','''		buffer := bytes.NewBuffer(nil)
		if writeErr := mainIndex.BinaryWriteTo(binutils.NewBinaryWriter(buffer)); writeErr != nil {
			return writeErr
		}

		_, writeErr := buffer.WriteTo(file)

		return writeErr
'''),('import (\n','import (\n	"bytes"\n'))
# bufio
ed('bufio','pkg/opencorpora/loader.go',('io.Copy(file, bzip2.NewReader(source))','io.Copy(file, bzip2.NewReader(bufio.NewReaderSize(source, 1<<16)))'),('import (\n','import (\n	"bufio"\n'))
# one helper for both
ed('exists','pkg/opencorpora/loader.go',('''func (loader Loader) IsUnpackedExists() bool {
	loader.Info("check if unpacked file exists")
	expectedFile := loader.unpackedFilePath()
	loader.Debugf("check file %v", expectedFile)
	fileStat, err := os.Stat(expectedFile)
	switch {''','''func (loader Loader) IsUnpackedExists() bool {
	loader.Info("check if unpacked file exists")

	return loader.isFileExists(loader.unpackedFilePath())
}

// isFileExists returns true if file at specified path exists and accessible.
func (loader Loader) isFileExists(expectedFile string) bool {
	loader.Debugf("check file %v", expectedFile)
	fileStat, err := os.Stat(expectedFile)
	switch {'''),('''	loader.Info("check if downloaded file exists")
	expectedFile := loader.downloadedFilePath()
	loader.Debugf("check file %v", expectedFile)
	fileStat, err := os.Stat(expectedFile)
	switch {
	case err != nil && errors.Is(err, os.ErrNotExist):
		loader.Debugf("file not exists at %v", expectedFile)

		return false // no file
	case err != nil:
		loader.Debugf("file access: %v: %v", expectedFile, err)

		return false // no file
	default:
		modTimeFormat := "2006-01-02T15:04:05Z07:00"
		loader.Debugf(
			"exists: %s: modified %s: size %d",
			expectedFile, fileStat.ModTime().Format(modTimeFormat), fileStat.Size())

		return true
	}
''','''	loader.Info("check if downloaded file exists")

	return loader.isFileExists(loader.downloadedFilePath())
'''))
# other temporary file idioms
ed('temp','pkg/opencorpora/file.go',('''	for n := 0; ; n++ {
		tempPath := fmt.Sprintf("%s.%d%s", filePath, n, tempFileSuffix)

		file, err = os.OpenFile(tempPath, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o666) // nolint:gomnd,gosec
		if !errors.Is(err, os.ErrExist) {
			return file, err
		}
	}
''','''	if file, err = os.CreateTemp(filepath.Dir(filePath), filepath.Base(filePath)+".*"+tempFileSuffix); err != nil {
		return nil, err
	}

	if err = file.Chmod(0o644); err != nil { // nolint:gomnd
		_ = file.Close()
		_ = os.Remove(file.Name())

		return nil, err
	}

	return file, nil
'''),('''	"errors"
	"fmt"
	"os"
''','''	"os"
	"path/filepath"
'''))
# state machine written as nested calls: order of checks
ed('required','pkg/opencorpora/loader.go',('''	lastModifiedString, ok := response.Header[common.HTTPHeaderLastModified]
	if ok && len(lastModifiedString) > 0 {
		loader.Debugf("remote %v: %v", common.HTTPHeaderLastModified, lastModifiedString)
		lastModified, err := time.Parse(time.RFC1123, lastModifiedString[0])
		if err != nil {
			return true, nil // cant compare lastModified, do update
		}
		if lastModified.After(fileStat.ModTime()) {
			return true, nil // site version is older then local
		}
	} else {
		loader.Debugf("remote %v: missed, assume no update required", common.HTTPHeaderLastModified)
	}

	return false, nil // site version is older then local
''','''	values := response.Header.Values(common.HTTPHeaderLastModified)
	if len(values) == 0 {
		loader.Debugf("remote %v: missed, assume no update required", common.HTTPHeaderLastModified)

		return false, nil
	}

	return isNewer(values[0], fileStat.ModTime()), nil
'''),('''func (loader Loader) DownloadUpdate() (''','''// isNewer tells if remote time is after local one. Unreadable is newer.
func isNewer(remote string, local time.Time) bool {
	parsed, err := http.ParseTime(remote)

	return err != nil || local.Before(parsed)
}

func (loader Loader) DownloadUpdate() ('''))
# goroutine with channel around the network
ed('goroutine','pkg/opencorpora/loader.go',('''	response, err := http.Head(RemoteURL)
	if err != nil {''','''	type answer struct {
		response *http.Response
		err      error
	}

	answers := make(chan answer, 1)

	go func() {
		response, err := http.Head(RemoteURL)
		answers <- answer{response: response, err: err}
	}()

	received := <-answers
	response, err := received.response, received.err

	if err != nil {'''))
# context
ed('request','pkg/opencorpora/loader.go',('''	response, err := http.Get(RemoteURL)
''','''	request, err := http.NewRequestWithContext(context.Background(), http.MethodGet, RemoteURL, nil)
	if err != nil {
		return err
	}

	response, err := http.DefaultClient.Do(request)
'''),('import (\n','import (\n	"context"\n'))
# map for tag names, sorted lookups
ed('tags','pkg/dag/idx.go',('''	for idx, tag := range tagsIndex {
		if string(tag.Name) == string(name) {
			return TagID(idx), true
		}
	}

	return 0, false
''','''	for idx := range tagsIndex {
		if tagsIndex[idx].Name != name {
			continue
		}

		id, found = TagID(idx), true

		break
	}

	return id, found
'''),('''	// iterate over known Tag's.
	for idx := 0; idx < tagsIndex.Len(); idx++ {
		if err = tagsIndex[idx].BinaryWriteTo(writer); err != nil {
			return fmt.Errorf("%w: cant write indexed %d", common.ErrMarshal, idx)
		}
	}
	return nil
''','''	for idx, tag := range tagsIndex {
		if err = tag.BinaryWriteTo(writer); err != nil {
			return fmt.Errorf("%w: cant write indexed %d: %v", common.ErrMarshal, idx, err)
		}
	}

	return nil
'''))
ed('tagsets','internal/index/tagset_index.go',('''	for idx := 0; idx < int(tagSetIndexLen); idx++ {
		*tagSetIndex = append(*tagSetIndex, nil)
		if err = (*tagSetIndex)[idx].BinaryReadFrom(reader); err != nil {
			return fmt.Errorf("%w: read: tagset: %v", Error, err)
		}
	}
''','''	for ; tagSetIndexLen > 0; tagSetIndexLen-- {
		var table TagSetTable

		if err = table.BinaryReadFrom(reader); err != nil {
			return fmt.Errorf("%w: read: tagset: %v", Error, err)
		}

		*tagSetIndex = append(*tagSetIndex, table)
	}
'''),('''	if columnIdx >= len(*tagSetIndex) { // no enough columns extend inplace
		currentLen := len(*tagSetIndex)

		for i := currentLen; i <= columnIdx; i++ {
			*tagSetIndex = append(*tagSetIndex, make(TagSetTable, 0))
		}
	}
''','''	for len(*tagSetIndex) <= columnIdx { // no enough columns extend inplace
		*tagSetIndex = append(*tagSetIndex, TagSetTable{})
	}
'''))
ed('items','internal/index/items.go',('''		extendTo := 2 ^ minExtendPower

		for i := maxExtendPower; i >= minExtendPower; i-- {
			extendLimit := 2 ^ i
			if currentLen > extendLimit {
				extendTo = extendLimit
				break
			}
		}
		items.Extend(extendTo)
''','''		_, _ = minExtendPower, maxExtendPower
		items.Extend(currentLen)
'''),('''	loaded := make([]Item, 0)
	for idx := 0; idx < int(itemListLen); idx++ {
		loaded = append(loaded, Item{})
		if err = loaded[idx].BinaryReadFrom(reader); err != nil {
			return err
		}
	}
''','''	var loaded []Item

	for len(loaded) < int(itemListLen) {
		var item Item

		if err = item.BinaryReadFrom(reader); err != nil {
			return err
		}

		loaded = append(loaded, item)
	}
'''))
ed('node','internal/index/node.go',('''	tagSet := make(TagSet, len(newTagSet))
	for idx, tagName := range newTagSet {
		tagSet[idx], found = node.index.tags.Find(tagName)
		if !found {
			return fmt.Errorf("%w: add tag set: unknown tag: %v", Error, tagName)
		}
	}

	item := node.index.getItem(node.id)
	if item == nil {
		return fmt.Errorf("%w: add tag set: no item: %v", Error, node.id)
	}
''','''	item := node.index.getItem(node.id)
	if item == nil {
		return fmt.Errorf("%w: add tag set: no item: %v", Error, node.id)
	}

	tagSet := make(TagSet, 0, len(newTagSet))

	for _, tagName := range newTagSet {
		var tagID dag.TagID

		if tagID, found = node.index.tags.Find(tagName); !found {
			return fmt.Errorf("%w: add tag set: unknown tag: %v", Error, tagName)
		}

		tagSet = append(tagSet, tagID)
	}
'''))
ed('path','pkg/common/utils.go',('''	domainDataPath := DomainDataPath(domain)
	if domainDataPath, err = filepath.Abs(domainDataPath); err != nil {
		return err
	}

	if err := os.MkdirAll(domainDataPath, os.ModePerm); err != nil {
		return err
	}

	return nil
''','''	domainDataPath, err := filepath.Abs(DomainDataPath(domain))
	if err == nil {
		err = os.MkdirAll(domainDataPath, os.ModePerm)
	}

	return err
'''))
ed('once','pkg/opencorpora/parser.go',('''	parser.collectedData = ""
	parser.currentPath += "." + element.Name.Local
''','''	parser.collectedData = ""
	parser.currentPath = strings.Join([]string{parser.currentPath, element.Name.Local}, ".")
'''),('import (\n','import (\n	"strings"\n'))
ed('main','cmd/opencorpora_update/main.go',('''	loader := opencorpora.NewLoader("")

	if err := loader.Update(*forceRecompile); err != nil {
		os.Exit(1)
	}

	os.Exit(0)
}
''','''	os.Exit(update(opencorpora.NewLoader(""), *forceRecompile))
}

// update runs update and returns exit code.
func update(loader *opencorpora.Loader, force bool) int {
	if err := loader.Update(force); err != nil {
		return 1
	}

	return 0
}
'''))
