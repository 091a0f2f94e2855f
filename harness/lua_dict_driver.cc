// Driver for configuration dictionaries and the options made from them (L01).
#include <sys/stat.h>
#include <cmath>
#include <fstream>
#include <map>
#include <set>
#include "absl/memory/memory.h"
#include "cartographer/common/configuration_file_resolver.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/mapping/map_builder.h"
#include "cartographer/mapping/trajectory_builder_interface.h"
#include "google/protobuf/message.h"
#include "vh.h"
using namespace cartographer;
using vh::json;
using Dict = common::LuaParameterDictionary;
namespace {
json Milli(double v) {
  if (std::isinf(v)) return {v < 0 ? -1 : 1, 0};
  const double n = std::round(v * 1000.);
  if (std::fabs(n) > 2e9 || n / 1000. != v) return {"other", std::to_string(v)};
  return {(long)n};
}
void Run(const json& sc) {
  const std::string root = sc["root"];
  std::vector<std::string> dirs;
  mkdir(root.c_str(), 0755);
  for (int d = 1; d <= sc["dirs"].get<int>(); ++d) {
    dirs.push_back(root + "/" + std::to_string(d));
    mkdir(dirs.back().c_str(), 0755);
  }
  for (const json& f : sc["files"]) {
    std::ofstream o(dirs[f["d"].get<int>() - 1] + "/" + f["n"].get<std::string>(), std::ios::binary);
    o << f["text"].get<std::string>();
  }
  const auto resolver = [&] { return absl::make_unique<common::ConfigurationFileResolver>(dirs); };
  std::map<int, std::unique_ptr<Dict>> hs;
  for (const json& o : sc["ops"]) {
    const std::string op = o["op"], k = o.value("k", "");
    const int h = o["h"], nh = o.value("nh", 0);
    if (op != "load" && !hs.count(h)) continue;
    json e = o;
    e["e"] = "Op";
    vh::Emit(e);
    if (op == "load") {
      hs[h] = o["rc"].get<bool>() ? absl::make_unique<Dict>(sc["text"].get<std::string>(), resolver())
                                  : Dict::NonReferenceCounted(sc["text"].get<std::string>(), resolver());
      vh::Emit({{"e", "Ret"}});
    } else if (op == "S") {
      vh::Emit({{"e", "Ret"}, {"v", json::array({hs[h]->GetString(k)})}});
    } else if (op == "D") {
      vh::Emit({{"e", "Ret"}, {"v", Milli(hs[h]->GetDouble(k))}});
    } else if (op == "I") {
      vh::Emit({{"e", "Ret"}, {"v", json::array({hs[h]->GetInt(k)})}});
    } else if (op == "N") {
      vh::Emit({{"e", "Ret"}, {"v", json::array({hs[h]->GetNonNegativeInt(k)})}});
    } else if (op == "B") {
      vh::Emit({{"e", "Ret"}, {"v", json::array({hs[h]->GetBool(k)})}});
    } else if (op == "T") {
      hs[nh] = hs[h]->GetDictionary(k);
      vh::Emit({{"e", "Ret"}});
    } else if (op == "has") {
      vh::Emit({{"e", "Ret"}, {"v", hs[h]->HasKey(k)}});
    } else if (op == "keys") {
      vh::Emit({{"e", "Ret"}, {"v", hs[h]->GetKeys()}});
    } else if (op == "aS") {
      json v = json::array();
      for (const std::string& s : hs[h]->GetArrayValuesAsStrings()) v.push_back(json::array({s}));
      vh::Emit({{"e", "Ret"}, {"v", v}});
    } else if (op == "aD") {
      json v = json::array();
      for (double d : hs[h]->GetArrayValuesAsDoubles()) v.push_back(Milli(d));
      vh::Emit({{"e", "Ret"}, {"v", v}});
    } else if (op == "aT") {
      auto v = hs[h]->GetArrayValuesAsDictionaries();
      for (size_t i = 0; i < v.size(); ++i) hs[nh + i] = std::move(v[i]);
      vh::Emit({{"e", "Ret"}, {"v", v.size()}});
    } else if (op == "print") {
      const std::string text = hs[h]->ToString();
      hs[nh] = Dict::NonReferenceCounted("return " + text, resolver());
      vh::Emit({{"e", "Ret"}, {"same", hs[nh]->ToString() == text}});
    } else if (op == "close") {
      hs[h].reset();
      hs.erase(h);
      vh::Emit({{"e", "Ret"}});
    }
  }
  fflush(nullptr);
  _exit(0);  // handles left open are not closed
}

// ---- options -------------------------------------------------------------
using Leaves = std::map<std::string, json>;
std::string Norm(std::string p) {
  size_t at;
  while ((at = p.find("_options")) != std::string::npos) p.erase(at, 8);
  while ((at = p.find("inserter_2d")) != std::string::npos) p.erase(at + 8, 3);
  return p;
}
void WalkLua(lua_State* L, const std::string& path, std::map<std::string, std::pair<std::string, double>>* out) {
  lua_pushnil(L);
  while (lua_next(L, -2)) {
    const std::string p = path + "." + lua_tostring(L, -2);
    if (lua_istable(L, -1)) WalkLua(L, p, out);
    else if (lua_isboolean(L, -1)) (*out)[p] = {"b", lua_toboolean(L, -1)};
    else if (lua_type(L, -1) == LUA_TNUMBER) (*out)[p] = {"n", lua_tonumber(L, -1)};
    else (*out)[p] = {std::string("s") + lua_tostring(L, -1), 0};
    lua_pop(L, 1);
  }
}
void WalkProto(const google::protobuf::Message& m, const std::string& path, Leaves* out, std::map<std::string, int>* type) {
  const auto* d = m.GetDescriptor();
  const auto* r = m.GetReflection();
  for (int i = 0; i < d->field_count(); ++i) {
    const auto* f = d->field(i);
    const std::string p = path + "." + f->name();
    using F = google::protobuf::FieldDescriptor;
    if (f->name() == "pure_localization") continue;  // deprecated, no key
    if (f->is_repeated()) {  // keys with a number
      for (int k = 0; k < r->FieldSize(m, f); ++k) {
        const std::string pk = p + "_" + std::to_string(k);
        if (type) (*type)[Norm(pk)] = f->cpp_type();
        if (f->cpp_type() == F::CPPTYPE_MESSAGE) WalkProto(r->GetRepeatedMessage(m, f, k), pk, out, type);
        else if (f->cpp_type() == F::CPPTYPE_DOUBLE) (*out)[Norm(pk)] = r->GetRepeatedDouble(m, f, k);
      }
      continue;
    }
    if (type) (*type)[Norm(p)] = f->cpp_type();
    switch (f->cpp_type()) {
      case F::CPPTYPE_MESSAGE:
        if (r->HasField(m, f)) WalkProto(r->GetMessage(m, f), p, out, type);
        break;
      case F::CPPTYPE_DOUBLE: (*out)[Norm(p)] = r->GetDouble(m, f); break;
      case F::CPPTYPE_FLOAT: (*out)[Norm(p)] = r->GetFloat(m, f); break;
      case F::CPPTYPE_INT32: (*out)[Norm(p)] = r->GetInt32(m, f); break;
      case F::CPPTYPE_INT64: (*out)[Norm(p)] = r->GetInt64(m, f); break;
      case F::CPPTYPE_UINT32: (*out)[Norm(p)] = r->GetUInt32(m, f); break;
      case F::CPPTYPE_BOOL: (*out)[Norm(p)] = r->GetBool(m, f); break;
      case F::CPPTYPE_ENUM: (*out)[Norm(p)] = r->GetEnum(m, f)->name(); break;
      case F::CPPTYPE_STRING: (*out)[Norm(p)] = r->GetString(m, f); break;
      default: break;
    }
  }
}
json AsPairs(const Leaves& l) {
  json out = json::array();
  for (auto& x : l) {
    json v = x.second;
    char buf[64];
    if (v.is_number()) {
      snprintf(buf, sizeof buf, "%.9g", v.get<double>());
      v = buf;
    } else if (v.is_boolean()) {
      v = v.get<bool>() ? "true" : "false";
    }
    out.push_back({x.first, v});
  }
  return out;
}
void Options(const json& sc) {
  const bool map_builder = sc["which"] == "map";
  const std::string dir = sc["conf"], root = map_builder ? "MAP_BUILDER" : "TRAJECTORY_BUILDER";
  std::string code = std::string("include \"") + (map_builder ? "map_builder.lua" : "trajectory_builder.lua") + "\"\n" + sc["extra"].get<std::string>() + "\n";
  const auto make = [&](const std::string& c, Leaves* out, std::map<std::string, int>* type) {
    Dict d(c + "return " + root, absl::make_unique<common::ConfigurationFileResolver>(std::vector<std::string>{dir}));
    if (map_builder) WalkProto(mapping::CreateMapBuilderOptions(&d), "", out, type);
    else WalkProto(mapping::CreateTrajectoryBuilderOptions(&d), "", out, type);
  };
  std::map<std::string, std::pair<std::string, double>> lua;
  lua_State* L = luaL_newstate();
  luaL_openlibs(L);
  if (luaL_dostring(L, ("function include(f) dofile('" + dir + "/' .. f) end\n" + code + "return " + root).c_str())) {
    vh::Finish({{"e", "LuaError"}});
  }
  WalkLua(L, "", &lua);
  if (sc.value("both", -1) >= 0) {  // exactly one kind of builder must be chosen
    vh::Emit({{"e", "OneKind"}});
  }
  Leaves proto;
  std::map<std::string, int> type;
  make(code, &proto, &type);
  std::map<std::string, double> number;
  unsigned x = sc["seed"].get<unsigned>() * 2654435761u + 77;
  const auto rnd = [&](int n) { x = x * 1103515245 + 12345; return int((x >> 16) % n); };
  Leaves want;
  int serial = 0;
  for (auto& kv : lua) {
    const std::string n = Norm(kv.first);
    std::string value;
    if (kv.second.first == "b") {
      bool b = rnd(2);
      if (kv.first.find(".use_trajectory_builder_") == 0) b = kv.second.second;  // exactly one
      want[n] = b;
      value = b ? "true" : "false";
    } else if (kv.second.first == "n") {
      using F = google::protobuf::FieldDescriptor;
      ++serial;
      const bool fl = kv.first.find("min_num_points") == std::string::npos && type.count(n) && (type[n] == F::CPPTYPE_DOUBLE || type[n] == F::CPPTYPE_FLOAT);
      // Every leaf gets a value of its own.
      double v = fl ? 0.5 + serial / 1024. : kv.second.second + serial * 100 + rnd(50);
      if (fl && kv.second.second > 1) v = std::floor(kv.second.second) + serial / 1024.;
      if (fl && kv.second.second < 0) v = -v;
      // (documented ranges)
      if (kv.first.find("hit_probability") != std::string::npos) v = 0.51 + serial / 4096.;
      if (kv.first.find("miss_probability") != std::string::npos) v = 0.01 + serial / 4096.;
      char buf[64];
      snprintf(buf, sizeof buf, "%.17g", v);
      value = buf;
      want[n] = v;
    } else {
      want[n] = kv.second.first.substr(1);
      continue;
    }
    code += root + kv.first + " = " + value + "\n";
  }
  Leaves got;
  make(code, &got, nullptr);
  vh::Emit({{"e", "Options"}, {"lua", AsPairs(want)}, {"proto", AsPairs(got)}});
}
}  // namespace
int main(int argc, char** argv) {
  return vh::Main(argc, argv, [](const json& sc) {
    if (sc["k"] == "options") Options(sc);
    else Run(sc);
  });
}
