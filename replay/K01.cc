// Executable contract of K01: comparison, copies and serialization of sensors, with the real yaml-cpp.
#include <aslam/common/sensor.h>
#include <memory>
#include "common.h"
using namespace aslam;
struct Probe : Sensor {
  Probe() : type(0), data(0) {} explicit Probe(const SensorId& i) : Sensor(i), type(0), data(0) {} Probe(const SensorId& i, const std::string& t) : Sensor(i, t), type(0), data(0) {} Probe(const SensorId& i, const std::string& t, const std::string& d) : Sensor(i, t, d), type(0), data(0) {}
  Sensor::Ptr cloneAsSensor() const override { return std::make_shared<Probe>(*this); }
  uint8_t getSensorType() const override { return type; } std::string getSensorTypeString() const override { return "T" + std::to_string(type); }
  bool isValidImpl() const override { return data >= 0; } void setRandomImpl() override { data = 7; }
  bool isEqualImpl(const Sensor& o, const bool) const override { return data == static_cast<const Probe&>(o).data; }
  bool loadFromYamlNodeImpl(const YAML::Node& n) override { return YAML::safeGet(n, "data", &data); }
  void saveToYamlNodeImpl(YAML::Node* n) const override { (*n)["data"] = data; }
  int type, data;
};
static std::string text(bool file) {
  static const char* const S[] = {"", "~", "null", "Null", "true", "0", "- a", "a: b", "# c", " lead", "trail ", "\"q\"", "'q'", "{}", "[]", "&a", "*a", "!t", "%d", "@x", "`y`", "|", ">", "a\nb", "\n", "\t", "a\tb", "/cam0/image_raw", "1e3", "0x10", "...", "---", "?", ":", ",", "=", "<<", "a #b", "NULL"};
  if (rp::rnd(0, 2)) return S[rp::rnd(0, sizeof S / sizeof *S - 1)];
  std::string s; int n = rp::rnd(0, 40); for (int i = 0; i < n; ++i) s += file ? (char)rp::rnd(32, 126) : (char)rp::rnd(0, 255); return s;
}
static void fill(Probe* a, bool file) { SensorId i; generateId(&i); a->setId(i); a->setTopic(text(file)); a->setDescription(text(file)); a->type = rp::rnd(0, 2); a->data = rp::rnd(0, 3); }
static bool same(const Probe& a, const Probe& b) { return a.getId() == b.getId() && a.getTopic() == b.getTopic() && a.getDescription() == b.getDescription(); }
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("k01"); FLAGS_minloglevel = 3; char dir[] = "/tmp/k01XXXXXX"; if (!mkdtemp(dir)) return 2; std::string file = std::string(dir) + "/s.yaml";
  while (rp::more()) {
    bool f = rp::rnd(0, 3) == 0; Probe a, b; fill(&a, f); fill(&b, f); rp::CASES("sensor " + a.getId().hexString() + " topic '" + a.getTopic() + "' description '" + a.getDescription() + "'");
    // equality: differences in any subset of the fields
    Probe c = a; c.type = a.type; c.data = a.data; EXPECT(same(a, c), "a copy differs"); EXPECT(a == c && !(a != c) && a.isEqual(c), "equal sensors are reported different");
    int m = rp::rnd(0, 31); if (m & 1) { SensorId i = a.getId(); std::string h = i.hexString(); char& x = h[rp::rnd(0, 31)]; x = x == '5' ? '6' : '5'; i.fromHexString(h); c.setId(i); }
    if (m & 2) c.setTopic(a.getTopic() + "x"); if (m & 4) c.setDescription("y" + a.getDescription()); if (m & 8) c.type ^= 1; if (m & 16) c.data += 1;
    EXPECT((a == c) == !m && (c == a) == !m && (a != c) == !!m && a.isEqual(c, rp::rnd(0, 1)) == !m, "sensors are equal exactly when all their fields are"); b = a; EXPECT(same(a, b), "an assigned sensor differs"); fill(&b, f);
    Probe d(a.getId()), e(a.getId(), "t"), g(a.getId(), "t", "d"); EXPECT(d.getId() == a.getId() && d.getTopic().empty() && d.getDescription().empty() && e.getTopic() == "t" && e.getDescription().empty() && g.getTopic() == "t" && g.getDescription() == "d" && g.getId() == a.getId(), "constructors"); EXPECT(Probe().getId().isValid(), "a default sensor has no valid identifier");
    EXPECT(a.isValid() && ((c.data = -1), !c.isValid()), "validity"); c.setRandom(); EXPECT(c.data == 7 && c.getId().isValid() && c.getId() != a.getId(), "setRandom");
    YAML::Node n; a.serialize(&n); EXPECT(n["id"].as<std::string>() == a.getId().hexString() && n["sensor_type"].as<std::string>() == a.getSensorTypeString() && n["topic"].as<std::string>() == a.getTopic() && n["description"].as<std::string>() == a.getDescription() && n["data"].as<int>() == a.data, "serialize leaves out a field");
    b.type = a.type; EXPECT(b.deserialize(n) && b == a, "a sensor read back differs");
    if (f) { Probe h; fill(&h, true); h.type = a.type; a.serializeToFile(file); EXPECT(h.deserializeFromFile(file) && h == a, "a sensor read back from a file differs"); EXPECT(!h.deserializeFromFile(file + ".missing") && h == a, "a missing file changes the sensor"); }
    // documents with missing or unusable fields
    YAML::Node q = YAML::Clone(n); int z = rp::rnd(0, 7); Probe k; fill(&k, f); Probe k0 = k; k0.type = k.type; k0.data = k.data; if (z & 1) q.remove("id"); if (z & 2) q.remove("topic"); if (z & 4) q.remove("description");
    EXPECT(k.deserialize(q), "a document with missing optional fields is refused"); EXPECT(k.getId().isValid() && ((z & 1) ? k.getId() != k0.getId() && k.getId() != a.getId() : k.getId() == a.getId()), "identifier of a document"); EXPECT(k.getTopic() == ((z & 2) ? k0.getTopic() : a.getTopic()) && k.getDescription() == ((z & 4) ? k0.getDescription() : a.getDescription()), "topic or description of a document");
    Probe r; fill(&r, f); Probe r0 = r; r0.type = r.type; r0.data = r.data; YAML::Node s; if (rp::rnd(0, 1)) s = std::string("text"); else if (rp::rnd(0, 1)) s.push_back(1); EXPECT(!r.deserialize(s) && r == r0, "a document that is no map is not refused");
    q.remove("data"); q["id"] = a.getId().hexString(); EXPECT(!k.deserialize(q), "failure to read type-specific data is not reported");
    if (rp::rnd(0, 63) == 0) { std::string bad[] = {"", "12", std::string(32, 'g'), std::string(32, '0'), a.getId().hexString() + "0"}; q["id"] = bad[rp::rnd(0, 4)]; EXPECT(rp::refused([&] { k.deserialize(q); }), "a malformed identifier is not refused"); SensorId inv; inv.setInvalid(); EXPECT(rp::refused([&] { Probe x(inv); }) && rp::refused([&] { k.setId(inv); }), "an invalid identifier is not refused"); }
    std::string o = "old"; EXPECT(YAML::hasKey(n, "topic") && !YAML::hasKey(n, "none") && !YAML::safeGet(n, "none", &o) && o == "old" && YAML::safeGet(n, "topic", &o) && o == a.getTopic(), "safeGet");
  }
  unlink(file.c_str()); rmdir(dir); return rp::done();
}
