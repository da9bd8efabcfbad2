// Executable contract of H03: channel groups against a map from names to typed values.
#include <memory>
#include <string>
namespace aslam { namespace internal {
inline bool serializeToString(const std::shared_ptr<int>&, std::string*) { return false; } inline bool deSerializeFromString(const std::string&, std::shared_ptr<int>*) { return false; }
inline bool serializeToBuffer(const std::shared_ptr<int>&, char**, size_t*) { return false; } inline bool deSerializeFromBuffer(const char*, size_t, std::shared_ptr<int>*) { return false; }
} }
#include <Eigen/Dense>
#include <opencv2/core.hpp>
#include <glog/logging.h>
#include <aslam/common/channel-declaration.h>
#include <map>
#include "common.h"
typedef Eigen::Matrix<unsigned char, -1, -1> U8;
DECLARE_CHANNEL(INTS, Eigen::VectorXi) DECLARE_CHANNEL(POINTS, Eigen::Matrix2Xd) DECLARE_CHANNEL(LIST, std::vector<U8>) DECLARE_CHANNEL(IMAGE, cv::Mat) DECLARE_CHANNEL(POINTER, std::shared_ptr<int>) DECLARE_CHANNEL(NUMBER, double)
DECLARE_CHANNEL(INTS2, Eigen::VectorXi)
using namespace aslam::channels;
typedef std::string Str;
static void gen(Eigen::VectorXi* v) { v->resize(rp::rnd(0, 3)); for (int i = 0; i < v->size(); ++i) (*v)(i) = rp::rnd(0, 1); }
static void gen(Eigen::Matrix2Xd* v) { v->resize(2, rp::rnd(0, 2)); for (int i = 0; i < v->size(); ++i) v->data()[i] = rp::rnd(0, 1); }
static void gen(std::vector<U8>* v) { v->resize(rp::rnd(0, 2)); for (U8& m : *v) { m.resize(rp::rnd(0, 2), rp::rnd(0, 2)); for (int i = 0; i < m.size(); ++i) m.data()[i] = rp::rnd(0, 1); } }
static void gen(cv::Mat* v) { static const int T[] = {CV_8UC1, CV_8UC1, CV_8UC3, CV_32FC1, CV_64FC2}; *v = cv::Mat(); if (rp::rnd(0, 4) == 0) return; *v = cv::Mat(rp::rnd(1, 2), rp::rnd(1, 2), T[rp::rnd(0, 4)]); v->setTo(0); if (rp::rnd(0, 1)) { cv::Mat f = v->reshape(1); int r = rp::rnd(0, f.rows - 1), c = rp::rnd(0, f.cols - 1); f(cv::Rect(c, r, 1, 1)).setTo(1); } }
static void gen(std::shared_ptr<int>* v) { if (rp::rnd(0, 2) == 0) v->reset(); else v->reset(new int(rp::rnd(0, 1))); }
static void gen(double* v) { *v = rp::rnd(0, 2); }
static Str show(const Eigen::VectorXi& v) { std::ostringstream o; o << "ints"; for (int i = 0; i < v.size(); ++i) o << ' ' << v(i); return o.str(); }
static Str show(const Eigen::Matrix2Xd& v) { std::ostringstream o; o << "points"; for (int i = 0; i < v.size(); ++i) o << ' ' << v.data()[i]; return o.str(); }
static Str show(const std::vector<U8>& v) { std::ostringstream o; o << "list"; for (const U8& m : v) { o << " " << m.rows() << "x" << m.cols() << ":"; for (int i = 0; i < m.size(); ++i) o << (int)m.data()[i]; } return o.str(); }
static Str show(const cv::Mat& v) { if (v.empty()) return "image empty"; std::ostringstream o; o << "image " << v.size() << " type " << v.type() << ' '; cv::Mat d; v.reshape(1).convertTo(d, CV_8U); for (int r = 0; r < d.rows; ++r) for (int c = 0; c < d.cols; ++c) o << (int)d.at<unsigned char>(r, c); return o.str(); }
static Str show(const std::shared_ptr<int>& v) { return v ? "pointer to " + std::to_string(*v) : "pointer null"; }
static Str show(double v) { return "number " + std::to_string(v); }
static Str kind(const Str& s) { return s.substr(0, s.find(' ')); }
struct Model { std::map<Str, Str> m; };
struct Slot { Str name; std::function<Str(ChannelGroup*)> add; std::function<Str(const ChannelGroup&)> get; std::function<Str(ChannelGroup*)> set; std::function<bool(const ChannelGroup&)> has; std::function<void(ChannelGroup*)> remove; Str kind; };
template <class V> static Str regen(V& v) { gen(&v); return show(v); }
#define DECL(N, K) Slot{#N, [](ChannelGroup* g) { return regen(add_##N##_Channel(g)); }, [](const ChannelGroup& g) { return show(get_##N##_Data(g)); }, [](ChannelGroup* g) { return regen(get_##N##_Data(*g)); }, [](const ChannelGroup& g) { return has_##N##_Channel(g); }, [](ChannelGroup* g) { remove_##N##_Channel(g); }, K}
#define NAMED(S, T, K) Slot{S, [](ChannelGroup* g) { return regen(addChannel<T>(S, g)); }, [](const ChannelGroup& g) { return show(getChannelData<T>(S, g)); }, [](ChannelGroup* g) { return regen(getChannelData<T>(S, *g)); }, [](const ChannelGroup& g) { return hasChannel(S, g); }, nullptr, K}
static void agree(const ChannelGroup& g, const Model& m, const std::vector<Slot>& S) {
  EXPECT(g.channels_.size() == m.m.size(), "number of channels");
  for (const Slot& s : S) { auto it = m.m.find(s.name); EXPECT(s.has(g) == (it != m.m.end()) && hasChannel(s.name, g) == s.has(g), "presence of " + s.name); if (it != m.m.end() && kind(it->second) == s.kind) EXPECT(s.get(g) == it->second, "value of " + s.name); }
}
static Str text(const Model& m) { Str s; for (auto& p : m.m) s += " " + p.first + "=" + p.second; return s; }
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("h03"); FLAGS_minloglevel = 3;
  std::vector<Slot> S = {DECL(INTS, "ints"), DECL(INTS2, "ints"), DECL(POINTS, "points"), DECL(LIST, "list"), DECL(IMAGE, "image"), DECL(POINTER, "pointer"), DECL(NUMBER, "number"), NAMED("a", Eigen::VectorXi, "ints"), NAMED("a", cv::Mat, "image"), NAMED("b", double, "number"), NAMED("", std::vector<U8>, "list"), NAMED("INTS", Eigen::Matrix2Xd, "points"), NAMED("b", Eigen::Matrix2Xd, "points")};
  const int G = 3;
  while (rp::more()) {
    ChannelGroup g[G]; Model m[G]; int steps = rp::rnd(1, 25); const size_t lo = rp::rnd(0, S.size() - 1), hi = rp::rnd(0, 1) ? S.size() - 1 : std::min(S.size() - 1, lo + rp::rnd(0, 2)); const size_t from = hi == S.size() - 1 ? 0 : lo;
    for (int st = 0; st < steps; ++st) {
      int a = rp::rnd(0, G - 1), b = rp::rnd(0, G - 1); const Slot& s = S[rp::rnd(from, hi)]; int op = rp::rnd(0, 9); auto it = m[a].m.find(s.name); bool here = it != m[a].m.end(), right = here && kind(it->second) == s.kind;
      rp::CASES("operation " + std::to_string(op) + " on " + s.name + " as " + s.kind + ", group:" + text(m[a]) + " | other:" + text(m[b]));
      bool slow = rp::rnd(0, 40) == 0;
      if (op <= 2) { if (!here) m[a].m[s.name] = s.add(&g[a]); else if (slow) EXPECT(rp::refused([&] { s.add(&g[a]); }), "adding a channel twice is not refused"); }
      else if (op == 3) { if (right) m[a].m[s.name] = s.set(&g[a]); else if (slow) EXPECT(rp::refused([&] { s.get(g[a]); }), "reading a missing channel or one of another type is not refused"); }
      else if (op == 4 && s.remove) { if (here) { s.remove(&g[a]); m[a].m.erase(s.name); } else if (slow) EXPECT(rp::refused([&] { s.remove(&g[a]); }), "removing a missing channel is not refused"); }
      else if (op == 5 && a != b) { g[b] = cloneChannelGroup(g[a]); m[b] = m[a];
        for (auto& p : g[a].channels_) { EXPECT(g[b].channels_[p.first] && g[b].channels_[p.first] != p.second, "a cloned channel is not separate"); }
        EXPECT(isChannelGroupEqual(g[a], g[b]), "a clone is reported different");
        for (auto& p : m[b].m) if (kind(p.second) == "image" && g[b].channels_.count(p.first)) { if (p.first == "a") getChannelData<cv::Mat>("a", g[b]) = getChannelData<cv::Mat>("a", g[b]).clone(); else get_IMAGE_Data(g[b]) = get_IMAGE_Data(g[b]).clone(); }
      } else if (op >= 6) {
        bool eq = m[a].m == m[b].m, mixed = false; for (auto& p : m[a].m) { auto q = m[b].m.find(p.first); if (q != m[b].m.end() && kind(q->second) != kind(p.second)) mixed = true; }
        if (!mixed) EXPECT(isChannelGroupEqual(g[a], g[b]) == eq, "groups are equal exactly when names and values are");
      }
      agree(g[a], m[a], S); agree(g[b], m[b], S);
    }
    // the single channels: differing values differ
    rp::CASE("copies of a group"); ChannelGroup c(g[0]); agree(c, m[0], S); for (auto& p : c.channels_) EXPECT(p.second == g[0].channels_[p.first], "a copied group shares the channels");
    // conversions address the named channel
    if (m[0].m.count("INTS") && kind(m[0].m["INTS"]) == "ints") { Str t; ChannelGroup d; serialize_INTS_Channel(g[0], &t); add_INTS_Channel(&d); add_INTS2_Channel(&d); deserialize_INTS_Channel(d, t); EXPECT(show(get_INTS_Data(d)) == m[0].m["INTS"] && get_INTS2_Data(d).size() == 0, "a converted channel differs"); }
  }
  return rp::done();
}
