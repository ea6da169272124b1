// Stand-in for pboettch/json-schema-validator, which is an empty submodule here:
// accepts what the taint-config schema demands at the top level, so that
// psr::parseTaintConfig can be compiled and exercised.
#pragma once
#include "nlohmann/json.hpp"
namespace nlohmann::json_schema {
class json_validator {
public:
  void set_root_schema(const json &) {}
  json validate(const json &J) const {
    if (!J.is_object() || !J.contains("name") || !J.contains("version"))
      throw std::runtime_error("schema violation");
    return {};
  }
};
} // namespace nlohmann::json_schema
