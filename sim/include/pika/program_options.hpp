// Minimal stand-in for pika::program_options (long options only)
#pragma once
#ifdef DLAFSIM_BOOST_PROGRAM_OPTIONS
// What pika itself exposes under this name is (a copy of) this library
#include <boost/program_options.hpp>
namespace pika {
namespace program_options = boost::program_options;
}
#else
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace pika::program_options {
class value_semantic {
public:
  bool takes_value = false;
  bool is_switch = false;
};
template <class T>
class typed_value : public value_semantic {
public:
  typed_value() {
    takes_value = true;
  }
  typed_value* default_value(const T&) {
    return this;
  }
};
template <class T>
typed_value<T>* value() {
  return new typed_value<T>;
}
inline value_semantic* bool_switch() {
  auto* v = new value_semantic;
  v->is_switch = true;
  return v;
}
class variable_value {
public:
  std::string s;
  template <class T>
  T as() const {
    if constexpr (std::is_same_v<T, std::string>)
      return s;
    else if constexpr (std::is_same_v<T, bool>)
      return s == "1" || s == "true";
    else {
      std::istringstream is(s);
      T t{};
      is >> t;
      if (!is)
        throw std::invalid_argument("invalid option value: " + s);
      return t;
    }
  }
};
class variables_map : public std::map<std::string, variable_value> {
public:
  const variable_value& operator[](const std::string& k) const {
    return this->at(k);
  }
};
class options_description {
public:
  struct opt {
    bool takes_value;
    std::string help;
  };
  std::map<std::string, opt> opts;
  std::string caption;
  options_description() = default;
  explicit options_description(std::string c) : caption(std::move(c)) {}
  struct adder {
    options_description* d;
    adder operator()(const char* name, const char* help) {
      d->opts[name] = {false, help};
      return *this;
    }
    adder operator()(const char* name, value_semantic* v, const char* help) {
      d->opts[name] = {v->takes_value, help};
      delete v;
      return *this;
    }
  };
  adder add_options() {
    return adder{this};
  }
  options_description& add(const options_description& o) {
    for (auto& kv : o.opts)
      opts.insert(kv);
    return *this;
  }
};
inline std::ostream& operator<<(std::ostream& os, const options_description& d) {
  os << d.caption << "\n";
  for (auto& kv : d.opts)
    os << "  --" << kv.first << "  " << kv.second.help << "\n";
  return os;
}
struct parsed_options {
  std::map<std::string, std::string> kv;
};
inline parsed_options parse_command_line(int argc, const char* const* argv, const options_description& d) {
  parsed_options p;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.rfind("--", 0) != 0)
      throw std::invalid_argument("unexpected argument " + a);
    a = a.substr(2);
    std::string v;
    auto q = a.find('=');
    bool has = q != std::string::npos;
    if (has) {
      v = a.substr(q + 1);
      a = a.substr(0, q);
    }
    auto it = d.opts.find(a);
    if (it == d.opts.end())
      throw std::invalid_argument("unrecognised option " + a);
    if (it->second.takes_value && !has) {
      if (i + 1 >= argc)
        throw std::invalid_argument("missing value of option " + a);
      v = argv[++i];
    }
    if (!it->second.takes_value)
      v = "1";
    p.kv[a] = v;
  }
  return p;
}
inline void store(const parsed_options& p, variables_map& vm) {
  for (auto& kv : p.kv)
    if (!vm.count(kv.first))
      vm.emplace(kv.first, variable_value{kv.second});
}
inline void notify(variables_map&) {}
}
#endif
