// Driver for proto streams and their deserializer (I01). All files are
// in memory (memfd).
#include <google/protobuf/wrappers.pb.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fstream>
#include "cartographer/io/internal/in_memory_proto_stream.h"
#include "cartographer/io/internal/mapping_state_serialization.h"
#include "cartographer/io/proto_stream.h"
#include "cartographer/io/proto_stream_deserializer.h"
#include "vh.h"
using namespace cartographer;
using vh::json;
namespace {
std::string Content(const json& m) {  // [kind, size, number]
  const std::string kind = m[0];
  const int n = m[1], id = m[2];
  std::string s = std::to_string(id) + ":";
  unsigned x = 12345 + id;
  for (int i = 0; i < n; ++i) {
    x = x * 1103515245 + 12345;
    s += kind == "zero" ? '\0' : kind == "ff" ? '\xff' : kind == "text" ? char('a' + (x >> 16) % 3) : char(x >> 16);
  }
  return n == 0 ? "" : s;
}
std::string Slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}
// A file without a name: nothing to clean up if the reader aborts.
struct Mem {
  int fd = memfd_create("vproto", 0);
  std::string name = "/proc/self/fd/" + std::to_string(fd);
  ~Mem() { close(fd); }
};
void Stream(const json& sc) {
  Mem am;
  const std::string a = am.name;
  std::vector<std::string> contents;
  bool closed;
  {
    io::ProtoStreamWriter w(a);
    for (const json& m : sc["msgs"]) {
      google::protobuf::BytesValue v;
      v.set_value(Content(m));
      contents.push_back(v.value());
      w.WriteProto(v);
    }
    closed = w.Close();
  }
  const std::string file = Slurp(a);
  size_t at = 8;
  for (size_t i = 0; i < contents.size(); ++i) {
    unsigned long long n = 0;
    for (int k = 7; k >= 0; --k) n = n * 256 + (at + k < file.size() ? (unsigned char)file[at + k] : 0);
    if (n > 1000000000) n = 999999999;
    vh::Emit({{"e", "Write"}, {"m", sc["msgs"][i]}, {"len", n}});
    at += 8 + n;
  }
  vh::Emit({{"e", "Written"}, {"size", file.size()}, {"closed", closed}});
  for (const json& r : sc["reads"]) {
    int cut = r[0], dmg = r[1];
    if (cut < 0 || cut > (int)file.size()) cut = file.size();
    if (dmg >= 0) dmg %= (int)file.size();
    std::string c = file.substr(0, cut);
    if (dmg >= 0 && dmg < cut) c[dmg] ^= (char)r[2].get<int>();
    Mem bm;
    const std::string b = bm.name;
    { std::ofstream o(b, std::ios::binary); o << c; }
    vh::Emit({{"e", "TryOpen"}, {"cut", cut}, {"dmg", dmg}});
    io::ProtoStreamReader reader(b);
    vh::Emit({{"e", "Opened"}});
    for (size_t n = 0; n < contents.size() + 3; ++n) {
      google::protobuf::BytesValue v;
      const bool ok = reader.ReadProto(&v);
      if (!ok) {
        vh::Emit({{"e", "ReadEnd"}, {"eof", reader.eof()}});
        if (n % 2) break;  // sometimes ask again
        continue;
      }
      json m = json::array({"other", 0, 0});
      for (size_t i = 0; i < contents.size(); ++i) if (contents[i] == v.value()) m = sc["msgs"][i];
      vh::Emit({{"e", "Read"}, {"m", m}});
    }
  }
}
void Full(const json& sc) {
  io::ProtoStreamWriter w("/dev/full");
  for (const json& m : sc["msgs"]) {
    google::protobuf::BytesValue v;
    v.set_value(Content(m));
    w.WriteProto(v);
  }
  vh::Emit({{"e", "Full"}, {"closed", w.Close()}});
}
std::unique_ptr<google::protobuf::Message> Part(const json& p) {
  const std::string k = p[0];
  const int n = p[1];
  if (k == "header") {
    auto h = absl::make_unique<mapping::proto::SerializationHeader>();
    h->set_format_version(n);
    return h;
  }
  auto d = absl::make_unique<mapping::proto::SerializedData>();
  if (k == "graph") { auto* g = d->mutable_pose_graph(); for (int i = 0; i < n; ++i) g->add_trajectory()->set_trajectory_id(i); }
  if (k == "options") { auto* o = d->mutable_all_trajectory_builder_options(); for (int i = 0; i < n; ++i) o->add_options_with_sensor_ids(); }
  if (k == "node") d->mutable_node()->mutable_node_id()->set_node_index(n);
  return d;
}
void Deserialize(const json& sc) {
  vh::Emit({{"e", "Deser"}, {"s", sc["parts"]}});
  Mem am;
  const std::string a = am.name;
  std::unique_ptr<io::ProtoStreamReaderInterface> reader;
  if (sc["mem"].get<bool>()) {
    std::queue<std::unique_ptr<google::protobuf::Message>> q;
    for (const json& p : sc["parts"]) q.push(Part(p));
    reader = absl::make_unique<io::InMemoryProtoStreamReader>(std::move(q));
  } else {
    io::ProtoStreamWriter w(a);
    for (const json& p : sc["parts"]) w.WriteProto(*Part(p));
    w.Close();
    reader = absl::make_unique<io::ProtoStreamReader>(a);
  }
  io::ProtoStreamDeserializer d(reader.get());
  json rest = json::array();
  mapping::proto::SerializedData data;
  while (rest.size() < 20 && d.ReadNextSerializedData(&data)) rest.push_back(data.has_node() ? data.node().node_id().node_index() : -1);
  vh::Emit({{"e", "Data"}, {"version", d.header().format_version()}, {"trajectories", d.pose_graph().trajectory_size()},
            {"options", d.all_trajectory_builder_options().options_with_sensor_ids_size()}, {"rest", rest}, {"eof", reader->eof()}});
}
void Handle(const json& sc) {
  rlimit r{4ull << 30, 4ull << 30};
  setrlimit(RLIMIT_AS, &r);
  const std::string k = sc["k"];
  if (k == "stream") Stream(sc);
  else if (k == "full") Full(sc);
  else Deserialize(sc);
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Handle); }
