#include "common.h"
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <unistd.h>

std::string q(std::string_view s)
{
	std::string r = "\"";
	char buf[16];
	auto u = [&](unsigned c) { snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; };
	for (size_t i = 0; i < s.size();)
	{
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); ++i; }
		else if (c < 0x20 || c == 0x7f) { u(c); ++i; }
		else if (c < 0x80) { r += char(c); ++i; }
		else
		{
			unsigned n = c >= 0xf0 && c < 0xf5 ? 4 : c >= 0xe0 ? 3 : c >= 0xc2 ? 2 : 1;
			unsigned cp = n == 4 ? c & 7 : n == 3 ? c & 15 : c & 31;
			bool ok = n > 1 && c < 0xf5 && i + n <= s.size();
			for (unsigned j = 1; ok && j < n; ++j)
			{
				ok = (static_cast<unsigned char>(s[i + j]) & 0xc0) == 0x80;
				cp = (cp << 6) | (static_cast<unsigned char>(s[i + j]) & 0x3f);
			}
			if (ok && n == 3 && (cp < 0x800 || (cp >= 0xd800 && cp < 0xe000))) ok = false;
			if (ok && n == 4 && (cp < 0x10000 || cp > 0x10ffff)) ok = false;
			if (!ok) { u(0xe000 + c); ++i; }         // byte that is not UTF-8
			else if (cp >= 0x10000) { u(0xd800 + ((cp - 0x10000) >> 10)); u(0xdc00 + ((cp - 0x10000) & 0x3ff)); i += n; }
			else { u(cp); i += n; }
		}
	}
	return r + "\"";
}

std::string fmtDouble(double d)
{
	if (std::isnan(d)) return "nan";
	if (std::isinf(d)) return d < 0 ? "-inf" : "inf";
	char buf[40];
	snprintf(buf, sizeof buf, "%.17g", d);
	return buf;
}

std::string hex(const std::vector<uint8_t>& b)
{
	static const char* d = "0123456789abcdef";
	std::string r;
	for (auto c : b) { r += d[c >> 4]; r += d[c & 15]; }
	return r;
}

std::vector<uint8_t> unhex(std::string_view s)
{
	std::vector<uint8_t> r;
	auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
	for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(uint8_t(v(s[i]) * 16 + v(s[i + 1])));
	return r;
}

std::string canon(std::string_view t, std::string_view v)
{
	return "{\"t\":" + q(t) + ",\"v\":" + q(v) + ",\"l\":[],\"k\":[]}";
}

std::string dump(const gr::Value& v)
{
	switch (v.type())
	{
		case gr::Type::Map:
		{
			std::vector<std::string> k, l;
			for (const auto& e : v.get<gr::MapType>()) { k.push_back(q(e.first)); l.push_back(dump(e.second)); }
			return "{\"t\":\"Map\",\"v\":\"\",\"l\":" + joinList(l) + ",\"k\":" + joinList(k) + "}";
		}
		case gr::Type::List:
		{
			std::vector<std::string> l;
			for (const auto& e : v.get<gr::ListType>()) l.push_back(dump(e));
			return "{\"t\":\"List\",\"v\":\"\",\"l\":" + joinList(l) + ",\"k\":[]}";
		}
		case gr::Type::String: return canon("String", v.get<gr::StringType>());
		case gr::Type::Null: return canon("Null", "");
		case gr::Type::Boolean: return canon("Boolean", v.get<gr::BooleanType>() ? "true" : "false");
		case gr::Type::Int: return canon("Int", std::to_string(v.get<gr::IntType>()));
		case gr::Type::Float: return canon("Float", fmtDouble(v.get<gr::FloatType>()));
		case gr::Type::EnumValue: return canon("Enum", v.get<gr::StringType>());
		case gr::Type::Scalar:
			try
			{
				return "{\"t\":\"Scalar\",\"v\":\"\",\"l\":[" + dump(v.get<gr::ScalarType>()) + "],\"k\":[]}";
			}
			catch (const std::exception&)
			{
				return "{\"t\":\"Scalar\",\"v\":\"\",\"l\":[],\"k\":[]}";
			}
	}
	return canon("Unknown", "");
}

gr::Value fromCanon(const JV& v)
{
	const auto t = sv(v["t"]);
	if (t == "Map")
	{
		gr::Value r(gr::Type::Map);
		for (rapidjson::SizeType i = 0; i < v["k"].Size(); ++i) r.emplace_back(str(v["k"][i]), fromCanon(v["l"][i]));
		return r;
	}
	if (t == "List")
	{
		gr::Value r(gr::Type::List);
		for (auto& e : v["l"].GetArray()) r.emplace_back(fromCanon(e));
		return r;
	}
	if (t == "String") return gr::Value(str(v["v"]));
	if (t == "JString") return gr::Value(gr::Value(str(v["v"])).from_json());
	if (t == "Null") return gr::Value();
	if (t == "Boolean") return gr::Value(sv(v["v"]) == "true");
	if (t == "Int") return gr::Value(static_cast<int>(std::stol(str(v["v"]))));
	if (t == "Float") return gr::Value(std::strtod(v["v"].GetString(), nullptr));
	if (t == "Enum")
	{
		gr::Value r(gr::Type::EnumValue);
		r.set<gr::StringType>(str(v["v"]));
		return r;
	}
	if (t == "Scalar")
	{
		gr::Value r(gr::Type::Scalar);
		if (v["l"].Size()) r.set<gr::ScalarType>(fromCanon(v["l"][0]));
		return r;
	}
	throw std::runtime_error("bad canonical type " + std::string(t));
}

int runLines(const char* in, const char* out, const Mode& mode)
{
	std::ifstream f(in);
	FILE* o = fopen(out, "a");
	std::string line;
	size_t n = 0;
	while (std::getline(f, line))
	{
		if (line.empty()) continue;
		rapidjson::Document d;
		d.Parse<rapidjson::kParseFullPrecisionFlag>(line.c_str(), line.size());
		if (d.HasParseError()) { fprintf(stderr, "bad input line %zu\n", n); return 3; }
		alarm(has(d, "alarm") ? unsigned(d["alarm"].GetInt()) : 20);
		std::string r;
		try { r = mode(d); }
		catch (const std::exception& e) { r = "{\"uncaught\":" + q(e.what()) + "}"; }
		alarm(0);
		if (r.empty()) r = "{}";
		fprintf(o, "%s\n", r.c_str());
		fflush(o);
		++n;
	}
	fclose(o);
	return 0;
}

int main(int argc, char** argv)
{
	if (argc != 4) return 64;
	static const std::map<std::string, std::string (*)(const JV&)> modes {
		{ "exec", modeExec }, { "parse", modeParse }, { "value", modeValue }, { "json", modeJson },
		{ "base64", modeBase64 }, { "client", modeClient }, { "clients", modeClients },
	};
	auto m = modes.find(argv[1]);
	if (m == modes.end()) return 64;
	return runLines(argv[2], argv[3], m->second);
}
