// The recorder: runs the real extraction pipeline on a PDF and records the state of the document after the selected steps
// (as reported by the PPP_VERIF_STAGE hook) as JSON, one line per step, for the offline checkers in /verif/lib.
//
//   rec <pdf> <events-file> [--stages=a,b,..|all] [--skip=x,y] [--out=<txt|ext|jsonl>:<roles|*>:<types|*>:<path>]... [--vis=<path>]
//       [--level=<0-4>] [--log=<steps>] [--log-page=<n>] [--before=<pdf>] [--fresh]
//
// Strings are written byte-wise (each byte b as the code point U+00bb), so that nothing is lost when they are not UTF-8.
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "Config.h"
#include "PdfDocumentSerialization.h"
#include "PdfDocumentVisualization.h"
#include "PdfToTextPlusPlus.h"
#include "Types.h"
#include "utils/PdfElementsUtils.h"

using namespace ppp::types;
using std::string;
using std::vector;

namespace {

FILE* g_events = nullptr;
std::set<string> g_stages;
bool g_allStages = false;
bool g_quiet = false;     // Do not record anything.
bool g_fresh = false;     // Number the objects anew in each stage.
std::unordered_map<const void*, int> g_ids;
int g_nextId = 1;

int oid(const void* p) {
  if (!p) { return 0; }
  auto it = g_ids.find(p);
  if (it != g_ids.end()) { return it->second; }
  g_ids[p] = g_nextId;
  return g_nextId++;
}

string num(double d) {
  if (std::isnan(d)) { return "NaN"; }
  if (std::isinf(d)) { return d > 0 ? "Infinity" : "-Infinity"; }
  char buf[64];
  snprintf(buf, sizeof(buf), "%.17g", d);
  return buf;
}

string str(const string& s) {
  string r = "\"";
  char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c >= 0x20 && c < 0x7f) { r += static_cast<char>(c); }
    else { snprintf(buf, sizeof(buf), "\\u%04x", c); r += buf; }
  }
  return r + "\"";
}

// A C++ bool that is uninitialized is UB to read; everything that is read here is initialized by the constructors.
string b(bool v) { return v ? "1" : "0"; }

template <typename T> string ids(const vector<T*>& v) {
  string r = "[";
  for (size_t i = 0; i < v.size(); i++) { r += (i ? "," : "") + std::to_string(oid(v[i])); }
  return r + "]";
}

struct Dump {
  std::ostringstream chars, words, lines, blocks, figures, shapes, graphics, segments;
  std::set<const void*> seen;
  const PdfDocument* doc;

  string elem(const PdfElement* e) {
    const PdfPosition* p = e->pos;
    return "\"id\":" + str(e->id) + ",\"rank\":" + std::to_string(e->rank) + ",\"doc\":" + b(e->doc == doc) + ",\"pos\":[" +
        num(p->pageNum) + "," + num(p->leftX) + "," + num(p->upperY) + "," + num(p->rightX) + "," + num(p->lowerY) + "," +
        std::to_string(p->rotation) + "," + std::to_string(p->wMode) + "]";
  }
  string text(const PdfTextElement* e) {
    return elem(e) + ",\"text\":" + str(e->text) + ",\"fs\":" + num(e->fontSize) + ",\"font\":" + str(e->fontName);
  }
  std::ostream& open(std::ostringstream& o, const void* p) {
    if (o.tellp() > 0) { o << ","; }
    o << "\"" << oid(p) << "\":{";
    return o;
  }
  void ch(const PdfCharacter* c) {
    if (!c || !seen.insert(c).second) { return; }
    open(chars, c) << text(c) << ",\"name\":" << str(c->name) << ",\"uni\":[";
    for (size_t i = 0; i < c->unicodes.size(); i++) { chars << (i ? "," : "") << c->unicodes[i]; }
    chars << "],\"base\":" << num(c->base) << ",\"color\":[" << num(c->color[0]) << "," << num(c->color[1]) << "," << num(c->color[2])
        << "],\"opacity\":" << num(c->opacity) << ",\"sub\":" << b(c->isSubscript) << ",\"sup\":" << b(c->isSuperscript)
        << ",\"word\":" << oid(c->word) << ",\"markOf\":" << oid(c->isDiacriticMarkOfBaseChar) << ",\"baseOf\":"
        << oid(c->isBaseCharOfDiacriticMark) << ",\"dtext\":" << str(c->textWithDiacriticMark) << "}";
    ch(c->isDiacriticMarkOfBaseChar);
    ch(c->isBaseCharOfDiacriticMark);
  }
  void word(const PdfWord* w) {
    if (!w || !seen.insert(w).second) { return; }
    open(words, w) << text(w) << ",\"chars\":" << ids(w->characters) << ",\"line\":" << oid(w->line) << ",\"base\":" << num(w->base)
        << ",\"partOf\":" << oid(w->isPartOfStackedMathSymbol) << ",\"stackBaseOf\":" << ids(w->isBaseOfStackedMathSymbol)
        << ",\"hyphFirst\":" << oid(w->isFirstPartOfHyphenatedWord) << ",\"hyphSecond\":" << oid(w->isSecondPartOfHyphenatedWord)
        << "}";
    for (const auto* c : w->characters) { ch(c); }
    word(w->isPartOfStackedMathSymbol);
    for (const auto* x : w->isBaseOfStackedMathSymbol) { word(x); }
    word(w->isFirstPartOfHyphenatedWord);
    word(w->isSecondPartOfHyphenatedWord);
  }
  void line(const PdfTextLine* l) {
    if (!l || !seen.insert(l).second) { return; }
    open(lines, l) << text(l) << ",\"words\":" << ids(l->words) << ",\"segment\":" << oid(l->segment) << ",\"block\":" << oid(l->block)
        << ",\"bbb\":[" << num(l->baseBBoxLeftX) << "," << num(l->baseBBoxUpperY) << "," << num(l->baseBBoxRightX) << ","
        << num(l->baseBBoxLowerY) << "],\"maxfs\":" << num(l->maxFontSize) << ",\"base\":" << num(l->base) << ",\"lm\":"
        << num(l->leftMargin) << ",\"rm\":" << num(l->rightMargin) << ",\"prev\":" << oid(l->prevLine) << ",\"next\":" << oid(l->nextLine)
        << ",\"prevSib\":" << oid(l->prevSiblingLine) << ",\"nextSib\":" << oid(l->nextSiblingLine) << ",\"parent\":" << oid(l->parentLine)
        << "}";
    for (const auto* w : l->words) { word(w); }
  }
  void block(const PdfTextBlock* k, bool withRole) {
    if (!k || !seen.insert(k).second) { return; }
    open(blocks, k) << text(k) << ",\"lines\":" << ids(k->lines) << ",\"segment\":" << oid(k->segment) << ",\"role\":"
        << (withRole ? static_cast<int>(k->role) : -1) << ",\"centered\":" << b(k->isLinesCentered) << ",\"emph\":" << b(k->isEmphasized)
        << ",\"hang\":" << num(k->hangingIndent) << ",\"trim\":[" << num(k->trimLeftX) << "," << num(k->trimUpperY) << ","
        << num(k->trimRightX) << "," << num(k->trimLowerY) << "],\"prev\":" << oid(k->prevBlock) << ",\"next\":" << oid(k->nextBlock) << "}";
    for (const auto* l : k->lines) { line(l); }
  }
  void figure(const PdfFigure* f) {
    if (!f || !seen.insert(f).second) { return; }
    open(figures, f) << elem(f) << ",\"chars\":" << ids(f->characters) << ",\"shapes\":" << ids(f->shapes) << ",\"graphics\":"
        << ids(f->graphics) << ",\"clip\":[" << num(f->clipLeftX) << "," << num(f->clipUpperY) << "," << num(f->clipRightX) << ","
        << num(f->clipLowerY) << "]}";
    for (const auto* c : f->characters) { ch(c); }
    for (const auto* s : f->shapes) { shape(s); }
    for (const auto* g : f->graphics) { graphic(g); }
  }
  void shape(const PdfShape* s) { if (s && seen.insert(s).second) { open(shapes, s) << elem(s) << "}"; } }
  void graphic(const PdfGraphic* s) { if (s && seen.insert(s).second) { open(graphics, s) << elem(s) << "}"; } }
  void segment(const PdfPageSegment* s) {
    if (!s || !seen.insert(s).second) { return; }
    open(segments, s) << elem(s) << ",\"elements\":" << ids(s->elements) << ",\"lines\":" << ids(s->lines) << ",\"blocks\":"
        << ids(s->blocks) << ",\"trim\":[" << num(s->trimLeftX) << "," << num(s->trimUpperY) << "," << num(s->trimRightX) << ","
        << num(s->trimLowerY) << "]}";
    for (const auto* l : s->lines) { line(l); }
    for (const auto* k : s->blocks) { block(k, false); }
  }
  string cuts(const vector<Cut*>& v) {
    string r = "[";
    for (size_t i = 0; i < v.size(); i++) {
      const Cut* c = v[i];
      r += string(i ? "," : "") + "{\"dir\":\"" + (c->dir == CutDir::X ? "x" : "y") + "\",\"id\":" + str(c->id) + ",\"page\":" +
          std::to_string(c->pageNum) + ",\"p\":[" + num(c->x1) + "," + num(c->y1) + "," + num(c->x2) + "," + num(c->y2) + "],\"chosen\":" +
          b(c->isChosen) + ",\"gw\":" + num(c->gapWidth) + ",\"gh\":" + num(c->gapHeight) + ",\"pos\":" +
          std::to_string(c->posInElements) + ",\"before\":" + std::to_string(oid(c->elementBefore)) + ",\"after\":" +
          std::to_string(oid(c->elementAfter)) + "}";
    }
    return r + "]";
  }
};

void dumpStage(const string& stage, const PdfDocument* doc) {
  Dump d;
  d.doc = doc;
  bool withRole = (stage == "reading-order" || stage == "final");
  std::ostringstream pages;
  for (size_t i = 0; i < doc->pages.size(); i++) {
    const PdfPage* p = doc->pages[i];
    for (const auto* c : p->characters) { d.ch(c); }
    for (const auto* f : p->figures) { d.figure(f); }
    for (const auto* s : p->shapes) { d.shape(s); }
    for (const auto* g : p->graphics) { d.graphic(g); }
    for (const auto* w : p->words) { d.word(w); }
    for (const auto* k : p->blocks) { d.block(k, withRole); }
    for (const auto* s : p->segments) { d.segment(s); }
    for (const auto* l : p->textLines) { d.line(l); }
    pages << (i ? "," : "") << "{\"o\":" << oid(p) << ",\"num\":" << p->pageNum << ",\"clip\":[" << num(p->clipLeftX) << ","
        << num(p->clipUpperY) << "," << num(p->clipRightX) << "," << num(p->clipLowerY) << "],\"w\":" << num(p->getWidth()) << ",\"h\":"
        << num(p->getHeight()) << ",\"chars\":" << ids(p->characters) << ",\"figures\":" << ids(p->figures) << ",\"shapes\":"
        << ids(p->shapes) << ",\"graphics\":" << ids(p->graphics) << ",\"words\":" << ids(p->words) << ",\"lines\":"
        << ids(p->textLines) << ",\"blocks\":" << ids(p->blocks) << ",\"segments\":" << ids(p->segments) << ",\"bcuts\":"
        << d.cuts(p->blockDetectionCuts) << ",\"rcuts\":" << d.cuts(p->readingOrderCuts) << "}";
  }
  std::ostringstream fonts;
  bool first = true;
  for (const auto& [name, f] : doc->fontInfos) {
    fonts << (first ? "" : ",") << str(name) << ":";
    first = false;
    if (!f) { fonts << "null"; continue; }
    fonts << "{\"name\":" << str(f->fontName) << ",\"norm\":" << str(f->normFontName) << ",\"basename\":" << str(f->fontBaseName)
        << ",\"fixed\":" << b(f->isFixedWidth) << ",\"serif\":" << b(f->isSerif) << ",\"symbolic\":" << b(f->isSymbolic) << ",\"italic\":"
        << b(f->isItalic) << ",\"weight\":" << f->weight << ",\"type3\":" << b(f->isType3) << ",\"ascent\":" << num(f->ascent)
        << ",\"descent\":" << num(f->descent) << ",\"matrix\":[";
    for (int i = 0; i < 6; i++) { fonts << (i ? "," : "") << num(f->fontMatrix[i]); }
    fonts << "],\"glyphs\":{";
    bool g1 = true;
    for (const auto& [gn, bb] : f->glyphBoundingBoxes) {
      fonts << (g1 ? "" : ",") << str(gn) << ":[" << num(std::get<0>(bb)) << "," << num(std::get<1>(bb)) << "," << num(std::get<2>(bb))
          << "," << num(std::get<3>(bb)) << "]";
      g1 = false;
    }
    fonts << "}}";
  }
  std::ostringstream dist;
  first = true;
  for (const auto& [fs, ld] : doc->mostFreqLineDistancePerFontSize) {
    dist << (first ? "" : ",") << "[" << num(fs) << "," << num(ld) << "]";
    first = false;
  }
  fprintf(g_events, "{\"stage\":\"%s\",\"stats\":{\"avgCharWidth\":%s,\"avgCharHeight\":%s,\"mostFreqFontSize\":%s,\"mostFreqFontName\":%s,"
      "\"mostFreqWordDistance\":%s,\"mostFreqEstimatedLineDistance\":%s,\"mostFreqLineDistance\":%s,\"lineDistPerFs\":[%s],"
      "\"mostFreqWordHeight\":%s,\"mostFreqLineLeftMargin\":%s},\"pages\":[%s],\"fonts\":{%s},\"chars\":{%s},\"words\":{%s},"
      "\"lines\":{%s},\"blocks\":{%s},\"figures\":{%s},\"shapes\":{%s},\"graphics\":{%s},\"segments\":{%s}}\n", stage.c_str(),
      num(doc->avgCharWidth).c_str(), num(doc->avgCharHeight).c_str(), num(doc->mostFreqFontSize).c_str(),
      str(doc->mostFreqFontName).c_str(), num(doc->mostFreqWordDistance).c_str(), num(doc->mostFreqEstimatedLineDistance).c_str(),
      num(doc->mostFreqLineDistance).c_str(), dist.str().c_str(), num(doc->mostFreqWordHeight).c_str(),
      num(doc->mostFreqLineLeftMargin).c_str(), pages.str().c_str(), fonts.str().c_str(), d.chars.str().c_str(),
      d.words.str().c_str(), d.lines.str().c_str(), d.blocks.str().c_str(), d.figures.str().c_str(), d.shapes.str().c_str(),
      d.graphics.str().c_str(), d.segments.str().c_str());
  fflush(g_events);
}

vector<string> split(const string& s, char sep) {
  vector<string> r;
  std::stringstream ss(s);
  string x;
  while (std::getline(ss, x, sep)) { r.push_back(x); }
  return r;
}

}  // namespace

void pppVerifOnStage(const char* stage, const PdfDocument* doc) {
  if (g_fresh) { g_ids.clear(); g_nextId = 1; }
  if (!g_quiet && (g_allStages || g_stages.count(stage))) { dumpStage(stage, doc); }
}

int main(int argc, char* argv[]) {
  if (argc < 3) { return 99; }
  ppp::config::Config conf;
  conf.semanticRolesPrediction.modelsDir = CONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR;
  conf.pdfParsing.logPageFilter = -1;
  vector<string> outs;
  string vis, before;
  for (int i = 3; i < argc; i++) {
    string a = argv[i];
    if (a.rfind("--stages=", 0) == 0) {
      for (auto& s : split(a.substr(9), ',')) { if (s == "all") { g_allStages = true; } g_stages.insert(s); }
    } else if (a.rfind("--skip=", 0) == 0) {
      for (auto& s : split(a.substr(7), ',')) {
        if (s == "fonts") { conf.pdfParsing.skipEmbeddedFontFilesParsing = true; }
        else if (s == "glyph-stats") { conf.glyphsStatisticsCalculation.disabled = true; }
        else if (s == "diacritics") { conf.diacriticalMarksMerging.disabled = true; }
        else if (s == "words") { conf.wordsDetection.disabled = true; }
        else if (s == "word-stats") { conf.wordsStatisticsCalculation.disabled = true; }
        else if (s == "segmentation") { conf.pageSegmentation.disabled = true; }
        else if (s == "lines") { conf.textLinesDetection.disabled = true; }
        else if (s == "scripts") { conf.subSuperScriptsDetection.disabled = true; }
        else if (s == "line-stats") { conf.textLinesStatisticsCalculation.disabled = true; }
        else if (s == "blocks") { conf.textBlocksDetection.disabled = true; }
        else if (s == "reading-order") { conf.readingOrderDetection.disabled = true; }
        else if (s == "dehyphenation") { conf.wordsDehyphenation.disabled = true; }
        else if (s == "roles") { conf.semanticRolesPrediction.disabled = true; }
        else { return 98; }
      }
    } else if (a.rfind("--level=", 0) == 0 || a.rfind("--log=", 0) == 0 || a.rfind("--log-page=", 0) == 0) {
      // The log level of all steps (a number); steps that log at level "debug"; the page of which messages are logged.
      auto v = split(a.substr(a.find('=') + 1), ',');
      std::map<string, ppp::config::BaseConfig*> steps = {
        {"parsing", &conf.pdfParsing}, {"glyph-stats", &conf.glyphsStatisticsCalculation}, {"diacritics", &conf.diacriticalMarksMerging},
        {"words", &conf.wordsDetection}, {"word-stats", &conf.wordsStatisticsCalculation}, {"segmentation", &conf.pageSegmentation},
        {"lines", &conf.textLinesDetection}, {"scripts", &conf.subSuperScriptsDetection}, {"line-stats", &conf.textLinesStatisticsCalculation},
        {"blocks", &conf.textBlocksDetection}, {"reading-order", &conf.readingOrderDetection}, {"roles", &conf.semanticRolesPrediction},
        {"dehyphenation", &conf.wordsDehyphenation}};
      for (auto& s : steps) {
        if (a[5] == '-') { s.second->logPageFilter = atoi(v[0].c_str()); }
        else if (a[4] == 'v') { s.second->logLevel = static_cast<ppp::utils::log::LogLevel>(atoi(v[0].c_str())); }
      }
      if (a[5] == '=') { for (auto& s : v) { if (!steps.count(s)) { return 95; } steps[s]->logLevel = ppp::utils::log::LogLevel::DEBUG; } }
    } else if (a.rfind("--out=", 0) == 0) {
      outs.push_back(a.substr(6));
    } else if (a.rfind("--vis=", 0) == 0) {
      vis = a.substr(6);
    } else if (a.rfind("--before=", 0) == 0) {
      before = a.substr(9);
    } else if (a == "--fresh") {
      g_fresh = true;
    } else {
      return 97;
    }
  }
  g_events = fopen(argv[2], "w");
  if (!g_events) { return 96; }
  ppp::PdfToTextPlusPlus engine(&conf);
  if (!before.empty()) {
    // An earlier document that is processed by the same engine.
    g_quiet = true;
    auto* other = new PdfDocument(before);
    engine.process(other);
    g_quiet = false;
  }
  srand(12345);
  PdfDocument doc(argv[1]);
  int status = engine.process(&doc);
  fprintf(g_events, "{\"stage\":\"exit\",\"status\":%d}\n", status);
  fclose(g_events);
  if (status > 0) { return 10; }
  for (const auto& o : outs) {
    vector<string> f = split(o, ':');
    if (f.size() != 4) { return 95; }
    std::unordered_set<SemanticRole> roles;
    std::unordered_set<PdfElementType> types;
    for (size_t i = 0; i < SEMANTIC_ROLE_NAMES.size(); i++) {
      bool in = f[1] == "*";
      for (auto& r : split(f[1], ',')) { in |= r == SEMANTIC_ROLE_NAMES[i]; }
      if (in) { roles.insert(static_cast<SemanticRole>(i)); }
    }
    for (size_t i = 0; i < PDF_ELEMENT_TYPE_NAMES.size(); i++) {
      bool in = f[2] == "*";
      for (auto& r : split(f[2], ',')) { in |= r == PDF_ELEMENT_TYPE_NAMES[i]; }
      if (in) { types.insert(static_cast<PdfElementType>(i)); }
    }
    if (f[0] != "txt" && f[0] != "jsonl" && f[0] != "ext") { return 95; }
    SerializationFormat fmt = f[0] == "txt" ? SerializationFormat::TXT : f[0] == "jsonl" ? SerializationFormat::JSONL
        : SerializationFormat::TXT_EXTENDED;
    ppp::serialization::getSerializer(fmt)->serialize(&doc, roles, types, f[3]);
  }
  if (!vis.empty()) {
    using namespace ppp::visualization;
    PdfDocumentVisualization pdv(argv[1], conf.pdfDocumentVisualization);
    pdv.visualizeCharacters(doc, color_schemes::blue);
    pdv.visualizeFigures(doc, color_schemes::blue);
    pdv.visualizeShapes(doc, color_schemes::blue);
    pdv.visualizeGraphics(doc, color_schemes::blue);
    pdv.visualizeWords(doc, color_schemes::blue);
    pdv.visualizeTextLines(doc, color_schemes::blue);
    pdv.visualizeTextBlocks(doc, color_schemes::red);
    pdv.visualizePageSegments(doc, color_schemes::blue);
    pdv.visualizeReadingOrder(doc, color_schemes::blue);
    pdv.visualizeSegmentCuts(doc, color_schemes::blue);
    pdv.visualizeReadingOrderCuts(doc, color_schemes::blue);
    pdv.save(vis);
  }
  return 0;
}
