// Calls the public utility functions of the code under test, as told by a line-based protocol on stdin (one call per line, one answer
// per line on stdout). Strings are "s" followed by hex digits, numbers are C99 hex floats or decimal integers.
#include <chrono>
#include <thread>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "Config.h"
#include "Types.h"
#include "utils/BytePairEncoder.h"
#include "utils/Comparators.h"
#include "utils/Counter.h"
#include "utils/FixedCapacityPriorityQueue.h"
#include "utils/Log.h"
#include "utils/MathUtils.h"
#include "utils/PageSegmentationUtils.h"
#include "utils/PdfElementsUtils.h"
#include "utils/TextUtils.h"
#include "utils/WordsDetectionUtils.h"
#include "utils/XYCut.h"

using namespace ppp::types;
using namespace ppp::utils;
using std::string;
using std::vector;
using std::wstring;

namespace {

struct In {
  vector<string> f;
  size_t i = 0;
  bool more() const { return i < f.size(); }
  const string& raw() { return f.at(i++); }
  double d() { return strtod(raw().c_str(), nullptr); }
  long n() { return strtol(raw().c_str(), nullptr, 10); }
  string s() {
    const string& h = raw();
    string r;
    for (size_t k = 1; k + 1 < h.size(); k += 2) { r += static_cast<char>(strtol(h.substr(k, 2).c_str(), nullptr, 16)); }
    return r;
  }
  // Code points, 8 hex digits each.
  wstring w() {
    const string& h = raw();
    wstring r;
    for (size_t k = 1; k + 7 < h.size(); k += 8) { r += static_cast<wchar_t>(strtol(h.substr(k, 8).c_str(), nullptr, 16)); }
    return r;
  }
};

string hex(const string& s) {
  string r = "s";
  char b[4];
  for (unsigned char c : s) { snprintf(b, sizeof(b), "%02x", c); r += b; }
  return r;
}

string hexw(const wstring& s) {
  string r = "s";
  char b[12];
  for (wchar_t c : s) { snprintf(b, sizeof(b), "%08x", static_cast<unsigned>(c)); r += b; }
  return r;
}

string num(double d) {
  if (std::isnan(d)) { return "nan"; }
  if (std::isinf(d)) { return d > 0 ? "inf" : "-inf"; }
  char b[64];
  snprintf(b, sizeof(b), "%a", d);
  return b;
}

string boo(bool v) { return v ? "1" : "0"; }

struct Pool {
  vector<std::unique_ptr<PdfWord>> words;
  PdfWord* elem(In* in) {
    int page = in->n();
    double l = in->d(), u = in->d(), r = in->d(), lo = in->d();
    int rot = in->n(), wm = in->n();
    words.push_back(std::make_unique<PdfWord>(page, l, u, r, lo, rot, wm));
    return words.back().get();
  }
  int idx(const PdfElement* e) const {
    for (size_t i = 0; i < words.size(); i++) { if (words[i].get() == e) { return i; } }
    return -1;
  }
};

template <typename C> string sorted(const vector<PdfElement*>& v, const Pool& p) {
  vector<PdfElement*> s = v;
  std::sort(s.begin(), s.end(), C());
  string r;
  for (auto* e : s) { r += " " + std::to_string(p.idx(e)); }
  return r + ";";
}

struct IntDesc { bool operator()(long a, long b) const { return a > b; } };

string handle(In* in) {
  string op = in->raw();
  std::ostringstream o;
  if (op == "math") {
    double a = in->d(), b = in->d(), c = in->d(), t = in->d();
    o << boo(math::equal(a, b, t)) << boo(math::smaller(a, b, t)) << boo(math::larger(a, b, t)) << boo(math::equalOrSmaller(a, b, t))
      << boo(math::equalOrLarger(a, b, t)) << boo(math::between(a, b, c, t)) << boo(math::equal(a, b)) << boo(math::smaller(a, b))
      << boo(math::larger(a, b)) << boo(math::equalOrSmaller(a, b)) << boo(math::equalOrLarger(a, b)) << boo(math::between(a, b, c));
  } else if (op == "round") {
    double a = in->d();
    unsigned n = in->n();
    o << num(math::round(a, n));
  } else if (op == "minmax") {
    double a = in->d(), b = in->d(), c = in->d(), d = in->d();
    o << num(math::minimum(a, b)) << " " << num(math::minimum(a, b, c)) << " " << num(math::minimum(a, b, c, d)) << " "
      << num(math::maximum(a, b)) << " " << num(math::maximum(a, b, c)) << " " << num(math::maximum(a, b, c, d));
  } else if (op == "overlap") {
    double a = in->d(), b = in->d(), c = in->d(), d = in->d();
    auto p = elements::computeOverlapRatios(a, b, c, d);
    o << num(p.first) << " " << num(p.second);
  } else if (op == "pair") {
    Pool p;
    PdfWord* a = p.elem(in);
    PdfWord* b = p.elem(in);
    double tol = in->d();
    a->fontName = in->s(); b->fontName = in->s();
    a->fontSize = in->d(); b->fontSize = in->d();
    auto x = elements::computeXOverlapRatios(a, b);
    auto y = elements::computeYOverlapRatios(a, b);
    o << num(elements::computeHorizontalGap(a, b)) << " " << num(elements::computeVerticalGap(a, b)) << " " << num(x.first) << " "
      << num(x.second) << " " << num(y.first) << " " << num(y.second) << " " << num(elements::computeMaxXOverlapRatio(a, b)) << " "
      << num(elements::computeMaxYOverlapRatio(a, b)) << " " << num(elements::computeLeftXOffset(a, b)) << " "
      << num(elements::computeRightXOffset(a, b)) << " " << boo(elements::computeHasEqualLeftX(a, b, tol))
      << boo(elements::computeHasEqualUpperY(a, b, tol)) << boo(elements::computeHasEqualRightX(a, b, tol))
      << boo(elements::computeHasEqualLowerY(a, b, tol)) << boo(elements::computeHasEqualFont(a, b))
      << boo(elements::computeHasEqualFontSize(a, b, tol));
  } else if (op == "pos") {
    Pool p;
    PdfWord* a = p.elem(in);
    o << num(a->pos->getWidth()) << " " << num(a->pos->getHeight()) << " " << num(a->pos->getRotLeftX()) << " "
      << num(a->pos->getRotUpperY()) << " " << num(a->pos->getRotRightX()) << " " << num(a->pos->getRotLowerY()) << " "
      << num(a->pos->getRotWidth()) << " " << num(a->pos->getRotHeight());
  } else if (op == "sort") {
    using namespace ppp::utils::comparators;
    Pool p;
    int n = in->n();
    vector<PdfElement*> v;
    for (int i = 0; i < n; i++) { v.push_back(p.elem(in)); }
    o << sorted<LeftXAscComparator>(v, p) << sorted<RightXDescComparator>(v, p) << sorted<UpperYAscComparator>(v, p)
      << sorted<RotLeftXAscComparator>(v, p) << sorted<RotLeftXDescComparator>(v, p) << sorted<RotLowerYAscComparator>(v, p)
      << sorted<RotLowerYDescComparator>(v, p);
  } else if (op == "cmp") {
    using namespace ppp::utils::comparators;
    Pool p;
    PdfWord* a = p.elem(in);
    PdfWord* b = p.elem(in);
    o << boo(LeftXAscComparator()(a, b)) << boo(RightXDescComparator()(a, b)) << boo(UpperYAscComparator()(a, b))
      << boo(RotLeftXAscComparator()(a, b)) << boo(RotLeftXDescComparator()(a, b)) << boo(RotLowerYAscComparator()(a, b))
      << boo(RotLowerYDescComparator()(a, b));
  } else if (op == "split") {
    string s = in->s();
    vector<string> r;
    if (in->more()) { string d = in->s(); text::splitIntoWords(s, &r, d.c_str()); } else { text::splitIntoWords(s, &r); }
    for (auto& x : r) { o << hex(x) << " "; }
  } else if (op == "wsplit") {
    wstring s = in->w();
    vector<wstring> r;
    if (in->more()) { string d = in->s(); text::splitIntoWords(s, &r, d.c_str()); } else { text::splitIntoWords(s, &r); }
    for (auto& x : r) { o << hexw(x) << " "; }
  } else if (op == "ends") {
    string s = in->s();
    if (in->more()) { string d = in->s(); o << boo(text::endsWithSentenceDelimiter(s, d.c_str())); }
    else { o << boo(text::endsWithSentenceDelimiter(s)); }
  } else if (op == "upper") {
    o << boo(text::startsWithUpper(in->s()));
  } else if (op == "rnd") {
    unsigned n = in->n();
    string p = in->s();
    if (in->more()) { string a = in->s(); o << hex(text::createRandomString(n, p, a.c_str())); } else { o << hex(text::createRandomString(n, p)); }
  } else if (op == "esc") {
    o << hex(text::escapeJson(in->s()));
  } else if (op == "shorten") {
    string s = in->s();
    if (in->more()) { o << hex(text::shorten(s, in->n())); } else { o << hex(text::shorten(s)); }
  } else if (op == "strip") {
    o << hex(text::strip(in->s()));
  } else if (op == "wrap") {
    string s = in->s();
    unsigned w = in->n(), ind = in->n();
    o << hex(text::wrap(s, w, ind));
  } else if (op == "join") {
    string sep = in->s();
    vector<string> v;
    while (in->more()) { v.push_back(in->s()); }
    o << hex(text::join(v, sep));
  } else if (op == "dcount") {
    counter::DoubleCounter c;
    while (in->more()) { double k = in->d(); long n = in->n(); if (n < 0) { c[k]++; } else { c[k] += n; } }
    o << c.sumCounts() << " ";
    try { o << num(c.mostFreq()) << " "; } catch (const std::runtime_error&) { o << "throw "; }
    try { o << c.mostFreqCount() << " "; } catch (const std::runtime_error&) { o << "throw "; }
    try { auto p = c.mostFreqAndCount(); o << num(p.first) << " " << p.second << " "; } catch (const std::runtime_error&) { o << "throw throw "; }
    try { o << num(c.max()); } catch (const std::runtime_error&) { o << "throw"; }
  } else if (op == "scount") {
    counter::StringCounter c;
    while (in->more()) { string k = in->s(); long n = in->n(); if (n < 0) { c[k]++; } else { c[k] += n; } }
    o << c.sumCounts() << " ";
    try { o << hex(c.mostFreq()) << " "; } catch (const std::runtime_error&) { o << "throw "; }
    try { o << c.mostFreqCount() << " "; } catch (const std::runtime_error&) { o << "throw "; }
    try { auto p = c.mostFreqAndCount(); o << hex(p.first) << " " << p.second; } catch (const std::runtime_error&) { o << "throw throw"; }
  } else if (op == "pq") {
    // pq <capacity> then a sequence of: + value | - | ? (reports size, top and the sorted content)
    long cap = in->n();
    FixedCapacityPriorityQueue<long, IntDesc> q(cap);  // top() is the smallest value.
    while (in->more()) {
      string c = in->raw();
      if (c == "+") { q.push(in->n()); }
      else if (c == "-") { if (!q.empty()) { q.pop(); } }
      else {
        o << q.size() << ":" << (q.empty() ? string("-") : std::to_string(q.top())) << ":";
        vector<long> a, d{7, 7, 7};
        q.sort(std::less<long>(), &a);
        q.sort(std::greater<long>(), &d);
        for (long x : a) { o << x << ","; }
        o << "/";
        for (long x : d) { o << x << ","; }
        o << " ";
      }
    }
  } else if (op == "log") {
    // log <level> <filter> then a sequence of: L level | F page | S milliseconds | M level page string
    using namespace ppp::utils::log;
    int lv = in->n(), pf = in->n();
    Logger lg(static_cast<LogLevel>(lv), pf);
    std::ostringstream cap;
    std::streambuf* old = std::cout.rdbuf(cap.rdbuf());
    while (in->more()) {
      string c = in->raw();
      if (c == "L") { lg.setLogLevel(static_cast<LogLevel>(in->n())); }
      else if (c == "F") { lg.setPageFilter(in->n()); }
      else if (c == "S") { std::this_thread::sleep_for(std::chrono::milliseconds(in->n())); }
      else {
        int l = in->n(), p = in->n();
        string m = in->s();
        switch (l) {
          case 0: lg.trace(p) << m << std::endl; break;
          case 1: lg.debug(p) << m << std::endl; break;
          case 2: lg.info(p) << m << std::endl; break;
          case 3: lg.warn(p) << m << std::endl; break;
          default: lg.error(p) << m << std::endl; break;
        }
      }
    }
    std::cout.rdbuf(old);
    o << hex(cap.str());
  } else if (op == "bpe") {
    // bpe <vocabulary size> <entries> then pairs of <target length> <text>
    long n = in->n();
    std::unordered_map<wstring, int> voc;
    for (long i = 0; i < n; i++) { wstring w = in->w(); voc[w] = i; }
    BytePairEncoder enc(&voc);
    while (in->more()) {
      size_t t = in->n();
      wstring w = in->w();
      vector<int> r;
      enc.encode(w, t, " ", &r);
      for (int x : r) { o << x << ","; }
      o << "; ";
    }
  } else if (op == "xycut") {
    // xycut <mode: x|y|xy> <minX> <minY> <max overlapping> <chooser> <seed> <n> <elements>; chooser: all none rand
    string mode = in->raw();
    double mx = in->d(), my = in->d();
    int mo = in->n();
    string ch = in->raw();
    unsigned long seed = in->n();
    int n = in->n();
    Pool p;
    vector<PdfElement*> v;
    for (int i = 0; i < n; i++) { v.push_back(p.elem(in)); }
    vector<PdfElement*> before = v;
    int calls = 0;
    auto choose = [&](const vector<Cut*>& cs, const vector<PdfElement*>& els, bool silent) {
      (void) silent;
      calls++;
      for (auto* c : cs) {
        // A choice that depends on nothing but the seed, the position of the cut and the number of elements.
        unsigned long h = seed * 1000003UL + c->posInElements * 104729UL + els.size() * 31UL;
        h ^= h >> 7; h *= 2654435761UL; h ^= h >> 13;
        c->isChosen = ch == "all" ? true : ch == "none" ? false : (h & 3) != 0;
      }
    };
    vector<vector<PdfElement*>> groups;
    vector<Cut*> cuts;
    bool ok = true;
    if (mode == "x") { ok = xCut(v, mx, mo, choose, true, &groups, &cuts); }
    else if (mode == "y") { ok = yCut(v, my, choose, true, &groups, &cuts); }
    else { xyCut(v, mx, my, mo, choose, choose, true, &groups, &cuts); }
    // Without result vectors (a lookahead), the answer is to be the same.
    bool ok2 = ok;
    if (mode == "x") { ok2 = xCut(v, mx, mo, choose, true); }
    else if (mode == "y") { ok2 = yCut(v, my, choose, true); }
    o << boo(ok) << boo(ok2) << boo(v == before) << " G";
    for (auto& g : groups) { o << " ["; for (auto* e : g) { o << p.idx(e) << ","; } o << "]"; }
    o << " C";
    for (auto* c : cuts) {
      o << " " << (c->dir == CutDir::X ? "x" : "y") << "|" << boo(c->isChosen) << "|" << c->posInElements << "|" << p.idx(c->elementBefore)
        << "|" << p.idx(c->elementAfter) << "|" << c->pageNum << "|" << num(c->x1) << "|" << num(c->y1) << "|" << num(c->x2) << "|"
        << num(c->y2) << "|" << num(c->gapWidth) << "|" << num(c->gapHeight) << "|";
      for (auto* e : c->overlappingElements) { o << p.idx(e) << ","; }
      o << "|" << hex(c->id);
    }
  } else if (op == "seg") {
    ppp::config::PageSegmentationConfig conf;
    PageSegmentationUtils u(&conf);
    int n = in->n();
    Pool p;
    vector<PdfElement*> v;
    for (int i = 0; i < n; i++) { v.push_back(p.elem(in)); }
    PdfPageSegment* s = u.createPageSegment(v);
    o << s->pos->pageNum << " " << num(s->pos->leftX) << " " << num(s->pos->upperY) << " " << num(s->pos->rightX) << " "
      << num(s->pos->lowerY) << " " << hex(s->id) << " " << boo(s->elements == v) << boo(s->doc == (v.empty() ? nullptr : v[0]->doc));
    delete s;
  } else if (op == "names") {
    string sep = in->s();
    o << hex(elements::getPdfElementTypesStr(sep)) << " " << hex(elements::getSerializationFormatsStr(sep)) << " "
      << hex(elements::getSemanticRolesStr(sep));
    for (auto t : elements::getPdfElementTypes()) { o << " t" << static_cast<int>(t) << "=" << elements::getPdfElementTypeName(t); }
    for (auto t : elements::getSerializationFormats()) { o << " f" << static_cast<int>(t) << "=" << elements::getSerializationFormatName(t); }
    for (auto t : elements::getSemanticRoles()) { o << " r" << static_cast<int>(t) << "=" << elements::getSemanticRoleName(t); }
  } else {
    o << "?";
  }
  return o.str();
}

}  // namespace

int main() {
  string line;
  while (std::getline(std::cin, line)) {
    In in;
    std::stringstream ss(line);
    string x;
    while (ss >> x) { in.f.push_back(x); }
    if (in.f.empty()) { continue; }
    string r = handle(&in);
    std::cout << r << "\n" << std::flush;
  }
  std::cout << "END" << std::endl;
  return 0;
}
