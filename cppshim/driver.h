// The driver around the generated C++ code. It is included in every
// translation unit of a batch through the precompiled header.
#ifndef VERIF_DRIVER_H
#define VERIF_DRIVER_H

#include <json/json.h>

#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <filesystem>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <regex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include <boost/filesystem/path.hpp>
#include <boost/optional.hpp>
#include <date/date.h>
#include <date/tz.h>
#include <optional.hpp>

namespace drv {

struct Context {
  // class name -> identifier -> address in the registry
  std::map<std::string, std::map<std::string, const void*>> registries;
  Json::Value complaints{Json::arrayValue};
  Json::Int refs = 0;

  void complain(const std::string& text) {
    if (complaints.size() < 5) complaints.append(Json::Value(text));
  }
};

// specialized for the composites by the generated part of the driver
template <typename T>
struct Fields {
  static constexpr bool composite = false;
};

template <typename T>
struct Instance {
  static const char* name() { return nullptr; }
};

inline Json::Value dump(Context&, const std::string&, bool v) {
  return Json::Value(v);
}
inline Json::Value dump(Context&, const std::string&, int64_t v) {
  return Json::Value(static_cast<Json::Int64>(v));
}
inline Json::Value dump(Context&, const std::string&, double v) {
  return Json::Value(v);
}
inline Json::Value dump(Context&, const std::string&, const std::string& v) {
  return Json::Value(v);
}
inline Json::Value dump(Context&, const std::string&,
                        const std::filesystem::path& v) {
  return Json::Value(v.string());
}
inline Json::Value dump(Context&, const std::string&,
                        const boost::filesystem::path& v) {
  return Json::Value(v.string());
}
inline Json::Value dump(Context&, const std::string&, const struct tm& v) {
  Json::Value out(Json::objectValue);
  Json::Value fields(Json::arrayValue);
  for (int f : {v.tm_year + 1900, v.tm_mon + 1, v.tm_mday, v.tm_hour, v.tm_min,
                v.tm_sec})
    fields.append(Json::Value(f));
  out["tm"] = fields;
  return out;
}
inline Json::Value dump(Context&, const std::string&,
                        const date::local_days& v) {
  Json::Value out(Json::objectValue);
  out["days"] =
      Json::Value(static_cast<Json::Int64>(v.time_since_epoch().count()));
  return out;
}
inline Json::Value dump(Context&, const std::string&,
                        const date::local_seconds& v) {
  Json::Value out(Json::objectValue);
  out["epoch"] =
      Json::Value(static_cast<Json::Int64>(v.time_since_epoch().count()));
  return out;
}
inline Json::Value dump(Context&, const std::string&,
                        const date::time_of_day<std::chrono::seconds>& v) {
  Json::Value out(Json::objectValue);
  out["secs"] = Json::Value(static_cast<Json::Int64>(v.to_duration().count()));
  return out;
}
inline Json::Value dump(Context&, const std::string&,
                        const std::chrono::nanoseconds& v) {
  Json::Value out(Json::objectValue);
  out["ns"] = Json::Value(static_cast<Json::Int64>(v.count()));
  return out;
}
inline Json::Value dump(Context&, const std::string&,
                        const date::time_zone* const& v) {
  if (v == nullptr) return Json::Value();
  return Json::Value(v->name());
}

template <typename T>
Json::Value dump(Context& ctx, const std::string& path, T* const& v);
template <typename T>
Json::Value dump(Context& ctx, const std::string& path,
                 const std::optional<T>& v);
template <typename T>
Json::Value dump(Context& ctx, const std::string& path,
                 const boost::optional<T>& v);
template <typename T>
Json::Value dump(Context& ctx, const std::string& path,
                 const std::experimental::optional<T>& v);
template <typename T>
Json::Value dump(Context& ctx, const std::string& path,
                 const std::vector<T>& v);
template <typename T>
Json::Value dump(Context& ctx, const std::string& path,
                 const std::map<std::string, T>& v);
template <typename T>
Json::Value dump(Context& ctx, const std::string& path,
                 const std::map<std::string, std::unique_ptr<T>>& v);
template <typename T>
typename std::enable_if<Fields<T>::composite, Json::Value>::type dump(
    Context& ctx, const std::string& path, const T& v);

template <typename T>
Json::Value dump(Context& ctx, const std::string& path, T* const& v) {
  ++ctx.refs;
  if (v == nullptr) {
    ctx.complain(path + " is a null reference");
    return Json::Value();
  }
  const auto& registry = ctx.registries[Instance<T>::name()];
  for (const auto& kv : registry) {
    if (kv.second == static_cast<const void*>(v)) return Json::Value(kv.first);
  }
  ctx.complain(path + " refers to an instance which is not registered");
  return Json::Value();
}

template <typename T>
Json::Value dump(Context& ctx, const std::string& path,
                 const std::optional<T>& v) {
  if (!v) return Json::Value();
  return dump(ctx, path, *v);
}
template <typename T>
Json::Value dump(Context& ctx, const std::string& path,
                 const boost::optional<T>& v) {
  if (!v) return Json::Value();
  return dump(ctx, path, *v);
}
template <typename T>
Json::Value dump(Context& ctx, const std::string& path,
                 const std::experimental::optional<T>& v) {
  if (!v) return Json::Value();
  return dump(ctx, path, *v);
}

template <typename T>
Json::Value dump(Context& ctx, const std::string& path,
                 const std::vector<T>& v) {
  Json::Value out(Json::arrayValue);
  for (size_t i = 0; i < v.size(); ++i) {
    const T& item = v[i];
    out.append(dump(ctx, path + "[" + std::to_string(i) + "]", item));
  }
  return out;
}

template <typename T>
Json::Value dump(Context& ctx, const std::string& path,
                 const std::map<std::string, T>& v) {
  Json::Value out(Json::objectValue);
  for (const auto& kv : v)
    out[kv.first] = dump(ctx, path + "[" + kv.first + "]", kv.second);
  return out;
}

template <typename T>
Json::Value dump(Context& ctx, const std::string& path,
                 const std::map<std::string, std::unique_ptr<T>>& v) {
  Json::Value out(Json::objectValue);
  for (const auto& kv : v) {
    const std::string sub = path + "[" + kv.first + "]";
    if (kv.second == nullptr) {
      ctx.complain(sub + " is null");
      continue;
    }
    if (kv.second->id != kv.first)
      ctx.complain(sub + " has the id " + kv.second->id);
    out[kv.first] = dump(ctx, sub, *kv.second);
  }
  return out;
}

template <typename T>
void enlist(Context& ctx, const std::map<std::string, std::unique_ptr<T>>& v) {
  auto& registry = ctx.registries[Instance<T>::name()];
  for (const auto& kv : v)
    registry[kv.first] = static_cast<const void*>(kv.second.get());
}

// the number of instances to skip before one is tampered with
inline int& tamper_skip() {
  static int value = 0;
  return value;
}

template <typename T>
bool tamper(const std::map<std::string, std::unique_ptr<T>>& v) {
  for (const auto& kv : v) {
    if (tamper_skip()-- > 0) continue;
    kv.second->id += "-other";
    return true;
  }
  return false;
}

template <typename Errors>
std::vector<std::string> refs_of(const Errors& errors) {
  std::vector<std::string> refs;
  for (const auto& error : errors.get()) refs.push_back(error.ref);
  std::sort(refs.begin(), refs.end());
  return refs;
}

// parses the same document and serializes the same graph in threads
template <typename Graph, typename Errors, typename Parse, typename Serialize>
void race(const Json::Value& doc, const std::string& ref, size_t cap,
          const std::vector<std::string>& expected, const Graph* shared,
          const Json::Value& out, Parse parse, Serialize serialize,
          Json::Value* response) {
  std::mutex mutex;
  std::string unstable;
  int raced = 0;
  std::vector<std::thread> threads;
  for (int g = 0; g < 4; ++g) {
    threads.emplace_back([&, g]() {
      std::string complaint;
      int done = 0;
      try {
        for (int k = 0; k < 3; ++k, ++done) {
          Graph graph;
          Errors errors(cap);
          parse(doc, ref, &graph, &errors);
          if (refs_of(errors) != expected) {
            complaint = "concurrent parsing gave other errors";
            break;
          }
          if (shared == nullptr) continue;
          const Graph* which = (g + k) % 2 == 1 ? shared : &graph;
          if (serialize(*which) != out) {
            complaint = "concurrent serialization differs";
            break;
          }
        }
      } catch (const std::exception& exception) {
        complaint = std::string("raised in a thread: ") + exception.what();
      }
      std::lock_guard<std::mutex> lock(mutex);
      raced += done;
      if (!complaint.empty()) unstable = complaint;
    });
  }
  for (auto& thread : threads) thread.join();
  if (!unstable.empty()) (*response)["unstable"] = unstable;
  (*response)["raced"] = raced;
}

struct Visitor {
  Context& ctx;
  const std::string& path;
  Json::Value& out;

  template <typename T>
  void operator()(const char* name, const T& v) {
    out[name] = dump(ctx, path + "." + name, v);
  }
};

template <typename T>
typename std::enable_if<Fields<T>::composite, Json::Value>::type dump(
    Context& ctx, const std::string& path, const T& v) {
  Json::Value out(Json::objectValue);
  Visitor visitor{ctx, path, out};
  Fields<T>::each(v, visitor);
  return out;
}

struct Handler {
  std::function<void(const Json::Value& request, Json::Value* response)> run;
};

std::map<int, Handler>& handlers();

template <typename Errors>
void report(const Errors& errors, Json::Value* response) {
  Json::Value list(Json::arrayValue);
  for (const auto& error : errors.get()) {
    Json::Value item(Json::objectValue);
    item["ref"] = error.ref;
    item["message"] = error.message;
    list.append(item);
  }
  (*response)["errors"] = list;
  (*response)["full"] = errors.full();
  (*response)["empty"] = errors.empty();
}

// replays a history of additions
template <typename Errors>
void history(const Json::Value& request, Json::Value* response) {
  Errors errors(static_cast<size_t>(request["cap"].asUInt64()));
  if (request.isMember("reserve"))
    errors.reserve(static_cast<size_t>(request["reserve"].asUInt64()));
  Json::Value steps(Json::arrayValue);
  const auto snapshot = [&]() {
    Json::Value step(Json::objectValue);
    step["full"] = errors.full();
    step["empty"] = errors.empty();
    step["size"] = static_cast<Json::UInt64>(errors.get().size());
    steps.append(step);
  };
  snapshot();
  for (const Json::Value& add : request["adds"]) {
    errors.add(add[0].asString(), add[1].asString());
    snapshot();
  }
  report(errors, response);
  (*response)["steps"] = steps;
}

template <typename Graph, typename Errors, typename Parse, typename Serialize,
          typename Enlist, typename Tamper>
void run(const Json::Value& request, Json::Value* response, Parse parse,
         Serialize serialize, Enlist enlist_all, Tamper tamper_one) {
  Json::Value& resp = *response;
  const std::string op = request["op"].asString();
  resp["errors"] = Json::Value(Json::arrayValue);
  if (op == "history") {
    history<Errors>(request, response);
    return;
  }
  const Json::Value doc = request["doc"];
  const Json::Value pristine = doc;
  const char* stage = "parse";
  Graph graph;
  try {
    Errors errors(static_cast<size_t>(request["cap"].asUInt64()));
    try {
      parse(doc, request["ref"].asString(), &graph, &errors);
    } catch (const std::exception&) {
      report(errors, response);
      throw;
    }
    report(errors, response);
    resp["mutated"] = doc != pristine;
    if (!errors.empty()) {
      if (op == "race")
        race<Graph, Errors>(doc, request["ref"].asString(),
                            static_cast<size_t>(request["cap"].asUInt64()),
                            refs_of(errors), nullptr, doc, parse, serialize,
                            response);
      return;
    }

    stage = "walk";
    Context ctx;
    enlist_all(ctx, graph);
    Json::Value before = dump(ctx, "", graph);
    resp["identity"] = ctx.complaints;
    resp["refs"] = ctx.refs;
    if (op == "dump") resp["dump"] = before;

    stage = "serialize";
    const Graph& constant = graph;
    resp["out"] = serialize(constant);
    resp["hasout"] = true;
    if (serialize(constant) != resp["out"])
      resp["unstable"] = "the second serialization differs";
    Context ctx2;
    enlist_all(ctx2, graph);
    if (dump(ctx2, "", graph) != before)
      resp["unstable"] = "serialization changed the graph";

    if (op == "race")
      race<Graph, Errors>(doc, request["ref"].asString(),
                          static_cast<size_t>(request["cap"].asUInt64()),
                          std::vector<std::string>(), &graph, resp["out"],
                          parse, serialize, response);

    bool tampered = false;
    if (op.compare(0, 5, "break") == 0) {
      tamper_skip() = std::atoi(op.c_str() + 5);
      tampered = tamper_one(graph);
      if (!tampered) {
        tamper_skip() = 0;
        tampered = tamper_one(graph);
      }
    }
    if (tampered) {
      try {
        serialize(constant);
        resp["broken"] = "accepted";
      } catch (const std::invalid_argument&) {
        resp["broken"] = "refused";
      }
    }
  } catch (const std::exception& exception) {
    resp["exception"] = std::string(exception.what());
    resp["stage"] = stage;
  }
}

}  // namespace drv
#endif
