// Shared plumbing of the conformance harness: ndjson in, ndjson out, canonical dump of response values.
#pragma once
#include "graphqlservice/GraphQLResponse.h"
#include <rapidjson/document.h>
#include <cstdio>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <string_view>
#include <vector>

using JV = rapidjson::Value;
namespace gr = graphql::response;

std::string q(std::string_view s);                 // quoted JSON string, pure ASCII
std::string dump(const gr::Value& v);              // canonical {"t","v","l","k"}
std::string canon(std::string_view t, std::string_view v);
gr::Value fromCanon(const JV& v);                  // inverse of dump
std::string fmtDouble(double d);
std::string hex(const std::vector<uint8_t>& b);
std::vector<uint8_t> unhex(std::string_view s);
inline std::string_view sv(const JV& v) { return { v.GetString(), v.GetStringLength() }; }
inline std::string str(const JV& v) { return { v.GetString(), v.GetStringLength() }; }
inline bool has(const JV& v, const char* k) { return v.HasMember(k); }
inline std::string strOr(const JV& v, const char* k, const char* d = "") { return has(v, k) ? str(v[k]) : std::string(d); }
inline std::string joinList(const std::vector<std::string>& l)
{
	std::string r = "[";
	for (size_t i = 0; i < l.size(); ++i) { if (i) r += ","; r += l[i]; }
	return r + "]";
}

using Mode = std::function<std::string(const JV& line)>;   // returns the observation (JSON object text) or "" for none
int runLines(const char* in, const char* out, const Mode& mode);

std::string modeExec(const JV&);
std::string modeParse(const JV&);
std::string modeValue(const JV&);
std::string modeJson(const JV&);
std::string modeBase64(const JV&);
std::string modeClient(const JV&);
std::string modeClients(const JV&);
