// sources: spell/dictionary.cpp
// under: Dictionary::Dictionary trie::insert_after flat_trie::flat_trie flat_trie::childrens operator<< operator>>
// bounded: dictionary_accepts random lists of up to 7 words of up to 4 code points over a small alphabet (the containers allocate inside loops, outside the verifier's reach)
// flags: -fno-access-control
#include "vp.hpp"
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "ppocr/spell/dictionary.hpp"
#include "ppocr/utils/utf.hpp"
using namespace ppocr;
using Flat = container::flat_trie<uint32_t>;

static bool accepts(Flat const & t, std::string const & word)
{
  Flat::range rng = t.childrens();
  Flat::node_type const * node = nullptr;
  utf::UTF8Iterator it(word.c_str());
  for (uint32_t c; (c = *it); ++it) {
    auto pos = rng.lower_bound(c);
    if (pos == rng.end() || pos->get() != c) return false;
    node = pos;
    rng = pos->childrens();
  }
  return node && node->is_terminal();
}

// a dictionary accepts exactly the words it was built from, also after being written and read back
VP_CONTRACT(P16, dictionary_accepts)
{
  static char const * const symbol[] = {"a", "b", "\xC3\xA9", "\xE2\x82\xAC", "c", "\xF0\x9F\x98\x80"};
  long n = vp_input("n", 0, 7);
  unsigned char * b = static_cast<unsigned char *>(vp_block("words", 8 * 5, 1, ""));
  auto word = [b](long k) { std::string w; for (long j = 0; j < b[k * 5] % 5; ++j) w += symbol[b[k * 5 + 1 + j] % 6]; return w; };
  std::vector<std::string> words;
  for (long k = 0; k < n; ++k) words.push_back(word(k));
  spell::Dictionary dict(words);
  std::string probe = word(7);
  auto listed = [&words](std::string const & w) { for (auto & x : words) if (x == w) return true; return false; };
  for (long k = 0; k < n; ++k) if (!words[k].empty()) vp_assert(accepts(dict.trie_, words[k]), "every word of the list is accepted");
  vp_assert(accepts(dict.trie_, probe) == (!probe.empty() && listed(probe)), "a word is accepted exactly when it is in the list");
  for (long k = 0; k < n; ++k) if (words[k].size() > 1) {
    std::string pre = words[k].substr(0, words[k].size() - 1);
    if ((pre.back() & 0xC0) != 0x80 && (pre.back() & 0x80) == 0) vp_assert(accepts(dict.trie_, pre) == listed(pre), "a prefix is accepted exactly when it is in the list");
  }
  std::stringstream ss;
  ss << dict;
  spell::Dictionary back;
  ss >> back;
  vp_assert(back.trie_.all().size() == dict.trie_.all().size(), "the dictionary read back has the same size");
  vp_assert(accepts(back.trie_, probe) == (!probe.empty() && listed(probe)), "the dictionary read back accepts the same words");
  long ends = 0, distinct = 0;
  for (auto & x : dict.trie_.all()) ends += x.is_terminal();
  for (long k = 0; k < n; ++k) { bool first = !words[k].empty(); for (long j = 0; j < k; ++j) if (words[j] == words[k]) first = false; distinct += first; }
  vp_assert(ends == distinct, "as many words are accepted as there are different ones in the list");
}
