// A stand-in for the cppflow (TensorFlow C++ API) header, which this sandbox does not have. It implements exactly the
// part of the API that SemanticRolesPrediction uses, so that the *real* pipeline and CLI can be built and monitored.
//
// The "model" is a deterministic function of its inputs: for every text block (= row) it outputs one probability per
// role. PPP_STUB_MODEL selects the function: "hash" (default; a pseudo-random distribution seeded by the row's features
// and PPP_STUB_SEED), "seq" (role = row index mod #roles),
// "style" (bold: title; italic: author info; both: marginal), or "const:<i>" (always role i).
// PPP_STUB_LOG names a file to which the inputs and outputs of every call are appended (observed by the monitors).
#ifndef VERIF_STUB_CPPFLOW_H_
#define VERIF_STUB_CPPFLOW_H_

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

namespace cppflow {

class tensor {
 public:
  tensor() = default;
  tensor(const std::vector<float>& values, const std::vector<int64_t>& shape) : _f(values), _shape(shape) { check(values.size()); }
  tensor(const std::vector<int>& values, const std::vector<int64_t>& shape) : _i(values), _shape(shape) { check(values.size()); }
  explicit tensor(const std::vector<int64_t>& values) : _l(values), _shape({static_cast<int64_t>(values.size())}) {}

  tensor shape() const { return tensor(_shape); }

  template <typename T> std::vector<T> get_data() const {
    if constexpr (std::is_same_v<T, float>) {
      return _f;
    } else if constexpr (std::is_same_v<T, int>) {
      return _i;
    } else {
      static_assert(std::is_same_v<T, int64_t>);
      return _l;
    }
  }
  const std::vector<float>& f() const { return _f; }
  const std::vector<int>& i() const { return _i; }
  const std::vector<int64_t>& dims() const { return _shape; }

 private:
  void check(size_t n) const {
    int64_t prod = 1;
    for (int64_t d : _shape) { prod *= d; }
    if (prod < 0 || static_cast<size_t>(prod) != n) {
      throw std::runtime_error("cppflow stub: tensor shape does not match the number of values");
    }
  }
  std::vector<float> _f;
  std::vector<int> _i;
  std::vector<int64_t> _l;
  std::vector<int64_t> _shape;
};

class model {
 public:
  explicit model(const std::string& dir) : _dir(dir) {
    // The real cppflow throws if the directory holds no saved model.
    FILE* f = fopen((dir + "/saved_model.pb").c_str(), "rb");
    if (!f) { throw std::runtime_error("Could not find SavedModel .pb or .pbtxt at supplied export directory path: " + dir); }
    fclose(f);
  }

  static constexpr int64_t NUM_ROLES = 14;

  std::vector<tensor> operator()(const std::vector<std::tuple<std::string, tensor>>& inputs,
      const std::vector<std::string>& outputs) const {
    const tensor* layout = nullptr;
    const tensor* words = nullptr;
    for (const auto& [name, t] : inputs) {
      if (name.find("layout") != std::string::npos) { layout = &t; }
      if (name.find("words") != std::string::npos) { words = &t; }
    }
    if (!layout || !words || layout->dims().size() != 2 || words->dims().size() != 2 ||
        layout->dims()[0] != words->dims()[0]) {
      throw std::runtime_error("cppflow stub: unexpected inputs");
    }
    int64_t n = layout->dims()[0], ly = layout->dims()[1], wy = words->dims()[1];
    const char* modeEnv = getenv("PPP_STUB_MODEL");
    std::string mode = modeEnv ? modeEnv : "hash";
    const char* seedEnv = getenv("PPP_STUB_SEED");
    uint64_t seed = seedEnv ? strtoull(seedEnv, nullptr, 10) : 0;
    std::vector<float> out;
    out.reserve(n * NUM_ROLES);
    for (int64_t r = 0; r < n; r++) {
      uint64_t h = 1469598103934665603ULL ^ (seed * 0x9E3779B97F4A7C15ULL);
      for (int64_t k = 0; k < ly; k++) {
        // Quantize, to be robust against (irrelevant) rounding differences.
        mix(&h, static_cast<uint64_t>(static_cast<int64_t>(clampf(layout->f()[r * ly + k]) * 64.0f)));
      }
      for (int64_t k = 0; k < wy; k++) { mix(&h, static_cast<uint64_t>(words->i()[r * wy + k])); }
      int64_t fixed = -1;
      if (mode == "seq") { fixed = r % NUM_ROLES; }
      if (mode == "style" && ly > 7) {
        bool bold = layout->f()[r * ly + 6] > 0, italic = layout->f()[r * ly + 7] > 0;
        fixed = bold ? (italic ? 2 : 6) : (italic ? 7 : 0);
      }
      if (mode.rfind("const:", 0) == 0) { fixed = atoi(mode.c_str() + 6) % NUM_ROLES; }
      float probs[NUM_ROLES];
      float sum = 0;
      for (int64_t k = 0; k < NUM_ROLES; k++) {
        mix(&h, static_cast<uint64_t>(k));
        probs[k] = 1.0f + static_cast<float>((h >> 20) % 100000);
        if (k == fixed) { probs[k] += 1000000.0f; }
        sum += probs[k];
      }
      for (int64_t k = 0; k < NUM_ROLES; k++) { out.push_back(probs[k] / sum); }
    }
    if (const char* log = getenv("PPP_STUB_LOG")) {
      if (FILE* f = fopen(log, "a")) {
        fprintf(f, "CALL %lld %lld %lld\n", (long long) n, (long long) ly, (long long) wy);
        for (int64_t r = 0; r < n; r++) {
          fprintf(f, "L");
          for (int64_t k = 0; k < ly; k++) { fprintf(f, " %.9g", layout->f()[r * ly + k]); }
          fprintf(f, "\nW");
          for (int64_t k = 0; k < wy; k++) { fprintf(f, " %d", words->i()[r * wy + k]); }
          fprintf(f, "\nP");
          for (int64_t k = 0; k < NUM_ROLES; k++) { fprintf(f, " %.9g", out[r * NUM_ROLES + k]); }
          fprintf(f, "\n");
        }
        fclose(f);
      }
    }
    return std::vector<tensor>(outputs.size(), tensor(out, {n, NUM_ROLES}));
  }

 private:
  static float clampf(float v) { return v != v ? 0.0f : (v > 1e6f ? 1e6f : (v < -1e6f ? -1e6f : v)); }
  static void mix(uint64_t* h, uint64_t v) { *h ^= v + 0x9E3779B97F4A7C15ULL + (*h << 6) + (*h >> 2); *h *= 0x100000001b3ULL; *h ^= *h >> 29; }
  std::string _dir;
};

}  // namespace cppflow

#endif  // VERIF_STUB_CPPFLOW_H_
