// Verification unit: sensors.
#include "aslam_cv_common/src/sensor.cc"
namespace vu {
using namespace aslam;
// a sensor with type-specific data
class Probe : public Sensor {
 public:
  Probe() : type(0), data(0) {}
  explicit Probe(const SensorId& i) : Sensor(i), type(0), data(0) {}
  Probe(const SensorId& i, const std::string& t) : Sensor(i, t), type(0), data(0) {}
  Probe(const SensorId& i, const std::string& t, const std::string& d) : Sensor(i, t, d), type(0), data(0) {}
  Sensor::Ptr cloneAsSensor() const override;
  uint8_t getSensorType() const override { return type; }
  std::string getSensorTypeString() const override;
  bool isValidImpl() const override;
  void setRandomImpl() override;
  bool isEqualImpl(const Sensor& o, const bool v) const override;
  bool loadFromYamlNodeImpl(const YAML::Node& n) override;
  void saveToYamlNodeImpl(YAML::Node* n) const override;
  uint8_t type; int data;
};
bool equal(const Sensor& a, const Sensor& b) { return a == b; }
bool unequal(const Sensor& a, const Sensor& b) { return a != b; }
bool is_equal(const Sensor& a, const Sensor& b, bool v) { return a.isEqual(b, v); }
bool valid(const Sensor& a) { return a.isValid(); }
bool read(Sensor* a, const YAML::Node& n) { return a->deserialize(n); }
void write(const Sensor& a, YAML::Node* n) { a.serialize(n); }
void set_random(Sensor* a) { a->setRandom(); }
void set_id(Sensor* a, const SensorId& i) { a->setId(i); }
const SensorId& get_id(const Sensor& a) { return a.getId(); }
void set_topic(Sensor* a, const std::string& s) { a->setTopic(s); }
void set_description(Sensor* a, const std::string& s) { a->setDescription(s); }
const std::string& get_topic(const Sensor& a) { return a.getTopic(); }
const std::string& get_description(const Sensor& a) { return a.getDescription(); }
Probe make0() { return Probe(); }
Probe make1(const SensorId& i) { return Probe(i); }
Probe make2(const SensorId& i, const std::string& t) { return Probe(i, t); }
Probe make3(const SensorId& i, const std::string& t, const std::string& d) { return Probe(i, t, d); }
Probe copy(const Probe& p) { return Probe(p); }
void assign(Probe* a, const Probe& b) { static_cast<Sensor&>(*a) = b; }
bool safe_get(const YAML::Node& n, const std::string& k, std::string* v) { return YAML::safeGet(n, k, v); }
bool has_key(const YAML::Node& n, const std::string& k) { return YAML::hasKey(n, k); }
bool load_file(Sensor* a, const std::string& f) { return a->deserializeFromFile(f); }
void save_file(const Sensor& a, const std::string& f) { a.serializeToFile(f); }
}
