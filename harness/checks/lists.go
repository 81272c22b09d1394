package checks

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip39/wordlists"
	"github.com/mearaj/bips/zzverif/core"
)

// list names, in the order used by cases.
var listNames = []string{"english", "chinese_simplified", "chinese_traditional", "czech", "french", "italian", "japanese", "korean", "portuguese", "spanish"}

// libList gives the library's list.
func libList(i int) []string {
	switch listNames[i] {
	case "english":
		return wordlists.English
	case "chinese_simplified":
		return wordlists.ChineseSimplified
	case "chinese_traditional":
		return wordlists.ChineseTraditional
	case "czech":
		return wordlists.Czech
	case "french":
		return wordlists.French
	case "italian":
		return wordlists.Italian
	case "japanese":
		return wordlists.Japanese
	case "korean":
		return wordlists.Korean
	case "portuguese":
		return wordlists.Portuguese
	}
	return wordlists.Spanish
}

// refLists are the published lists; refIndex their reverse maps.
var refLists [][]string
var refIndex []map[string]int

// defaultList is the list the library had active before any call.
var defaultList = append([]string{}, bip39.GetWordList()...)

func loadLists() {
	for _, n := range listNames {
		b, err := os.ReadFile(filepath.Join(core.DataDir, "wordlists", n+".txt"))
		if err != nil {
			panic(err)
		}
		l := strings.Fields(string(b))
		if len(l) != 2048 {
			panic("bad reference list " + n)
		}
		refLists = append(refLists, l)
		refIndex = append(refIndex, indexOf(l))
	}
}

func indexOf(l []string) map[string]int {
	m := make(map[string]int, len(l))
	for i, w := range l {
		m[w] = i
	}
	return m
}
