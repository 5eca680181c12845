// Histories of operations on response values, and JSON text.
#include "common.h"
#include "graphqlservice/JSONResponse.h"
#include <cmath>
#include <optional>

namespace {
std::string hexs(const std::string& s) { return hex(std::vector<uint8_t>(s.begin(), s.end())); }

// {"t","v","l","k","j": may be an enum, "f": for every known name the position it is found at}
std::string full(const gr::Value& v, const std::vector<std::string>& names)
{
	std::string t = "Null", x, f;
	std::vector<std::string> l, k;
	switch (v.type())
	{
		case gr::Type::Map:
		{
			t = "Map";
			const auto& m = v.get<gr::MapType>();
			for (const auto& e : m) { k.push_back(q(e.first)); l.push_back(full(e.second, names)); }
			if (v.size() != m.size() || size_t(v.end() - v.begin()) != m.size()) f = "!";
			for (auto& n : names)
			{
				auto p = v.find(n);
				f += p == v.end() ? "-" : std::to_string(p - v.begin() + 1);
				const gr::Value* at = nullptr;
				try { at = &v[n]; } catch (const std::runtime_error&) {}
				if (at != (p == v.end() ? nullptr : &p->second)) f += "!";
				f += ".";
			}
			break;
		}
		case gr::Type::List:
		{
			t = "List";
			const auto& m = v.get<gr::ListType>();
			for (const auto& e : m) l.push_back(full(e, names));
			if (v.size() != m.size()) f = "!";
			for (size_t i = 0; i < m.size(); ++i) if (&v[i] != &m[i]) f = "!";
			break;
		}
		case gr::Type::String: t = "String"; x = v.get<gr::StringType>(); break;
		case gr::Type::Null: break;
		case gr::Type::Boolean: t = "Boolean"; x = v.get<gr::BooleanType>() ? "true" : "false"; break;
		case gr::Type::Int: t = "Int"; x = std::to_string(v.get<gr::IntType>()); break;
		case gr::Type::Float: t = "Float"; x = fmtDouble(v.get<gr::FloatType>()); break;
		case gr::Type::EnumValue: t = "Enum"; x = v.get<gr::StringType>(); break;
		case gr::Type::Scalar:
			t = "Scalar";
			try { l.push_back(full(v.get<gr::ScalarType>(), names)); }
			catch (const std::logic_error&) {}
			break;
	}
	return "{\"t\":" + q(t) + ",\"v\":" + q(x) + ",\"l\":" + joinList(l) + ",\"k\":" + joinList(k) + ",\"j\":\"" + (v.maybe_enum() ? "1" : "0") + "\",\"f\":" + q(f) + "}";
}

gr::Type typeOf(std::string_view t)
{
	static const std::map<std::string_view, gr::Type> m { { "Map", gr::Type::Map }, { "List", gr::Type::List }, { "String", gr::Type::String }, { "Null", gr::Type::Null },
		{ "Boolean", gr::Type::Boolean }, { "Int", gr::Type::Int }, { "Float", gr::Type::Float }, { "Enum", gr::Type::EnumValue }, { "Scalar", gr::Type::Scalar } };
	return m.at(t);
}

const gr::Value& child(const gr::Value& v, size_t i)
{
	if (v.type() == gr::Type::Map) return v.get<gr::MapType>().at(i).second;
	if (v.type() == gr::Type::Scalar) return v.get<gr::ScalarType>();
	return v[i];
}
}

std::string modeValue(const JV& j)
{
	std::vector<std::string> names, steps;
	for (auto& n : j["names"].GetArray()) names.push_back(str(n));
	std::vector<gr::Value> pool(size_t(j["n"].GetInt()));
	for (auto& o : j["ops"].GetArray())
	{
		const auto op = str(o["op"]);
		const std::string v = strOr(o, "v"), ty = strOr(o, "ty");
		auto& a = pool[size_t(o["s"].GetInt())];
		auto& b = pool[has(o, "t") ? size_t(o["t"].GetInt()) : 0];
		const int i = has(o, "i") ? o["i"].GetInt() : 0;
		std::string r = "ok", res;
		try
		{
			if (op == "new") a = gr::Value(typeOf(ty));
			else if (op == "ctor")
			{
				if (ty == "String") a = gr::Value(std::string(v));
				else if (ty == "CString") a = gr::Value(v.c_str());
				else if (ty == "Boolean") a = gr::Value(v == "true");
				else if (ty == "Int") a = gr::Value(std::stoi(v));
				else if (ty == "Float") a = gr::Value(std::strtod(v.c_str(), nullptr));
				else if (ty == "ID") a = gr::Value(unhex(v));
			}
			else if (op == "copy") a = gr::Value { b };
			else if (op == "move") a = std::move(b);
			else if (op == "movec") { gr::Value x { std::move(b) }; a = std::move(x); }
			else if (op == "set")
			{
				if (ty == "String") a.set<gr::StringType>(std::string(v));
				else if (ty == "Boolean") a.set<gr::BooleanType>(v == "true");
				else if (ty == "Int") a.set<gr::IntType>(std::stoi(v));
				else if (ty == "Float") a.set<gr::FloatType>(std::strtod(v.c_str(), nullptr));
				else if (ty == "ID") a.set<gr::IdType>(unhex(v));
				else if (ty == "Scalar") a.set<gr::ScalarType>(gr::Value { b });
			}
			else if (op == "put") res = a.emplace_back(std::string(v), gr::Value { b }) ? "1" : "0";
			else if (op == "putm") res = a.emplace_back(std::string(v), std::move(b)) ? "1" : "0";
			else if (op == "app") a.emplace_back(gr::Value { b });
			else if (op == "appm") a.emplace_back(std::move(b));
			else if (op == "find") { auto p = a.find(v); res = p == a.end() ? "none" : std::to_string(p - a.begin() + 1); }
			else if (op == "at") { const gr::Value* p = &a[std::string_view(v)]; for (auto& e : a) { if (&e.second == p) res = e.first; } }
			else if (op == "idx") { const gr::Value* p = &a[size_t(i)]; const auto& l = a.get<gr::ListType>(); res = std::to_string(p - l.data() + 1); }
			else if (op == "sub") { gr::Value x { child(a, size_t(i)) }; b = std::move(x); }
			else if (op == "get")
			{
				if (ty == "Map") res = std::to_string(a.get<gr::MapType>().size());
				else if (ty == "List") res = std::to_string(a.get<gr::ListType>().size());
				else if (ty == "String") res = a.get<gr::StringType>();
				else if (ty == "Boolean") res = a.get<gr::BooleanType>() ? "true" : "false";
				else if (ty == "Int") res = std::to_string(a.get<gr::IntType>());
				else if (ty == "Float") res = fmtDouble(a.get<gr::FloatType>());
				else if (ty == "ID") res = hex(a.get<gr::IdType>());
				else if (ty == "Scalar") res = a.get<gr::ScalarType>().type() == gr::Type::Null ? "null" : "some";
				else if (ty == "begin") { a.begin(); a.end(); res = std::to_string(a.end() - a.begin()); }
			}
			else if (op == "release")
			{
				gr::Value x;
				if (ty == "Map") { auto m = a.release<gr::MapType>(); x = gr::Value(gr::Type::Map); for (auto& e : m) x.emplace_back(std::move(e.first), std::move(e.second)); }
				else if (ty == "List") { auto m = a.release<gr::ListType>(); x = gr::Value(gr::Type::List); for (auto& e : m) x.emplace_back(std::move(e)); }
				else if (ty == "String") x = gr::Value(a.release<gr::StringType>());
				else if (ty == "ID") x = gr::Value(hex(a.release<gr::IdType>()));
				else if (ty == "Scalar") x = a.release<gr::ScalarType>();
				b = std::move(x);
			}
			else if (op == "size") res = std::to_string(a.size());
			else if (op == "reserve") a.reserve(size_t(i));
			else if (op == "json") a.from_json();
			else r = "unknown";
		}
		catch (const std::exception& e) { r = "err"; res = ""; }
		std::vector<std::string> p;
		std::string eq;
		for (auto& x : pool) p.push_back(full(x, names));
		for (auto& x : pool) for (auto& y : pool) { bool e = x == y; eq += e != (x != y) ? (e ? '1' : '0') : '!'; }
		steps.push_back("{\"r\":" + q(r) + ",\"res\":" + q(res) + ",\"pool\":" + joinList(p) + ",\"eq\":" + q(eq) + "}");
	}
	return "{\"steps\":" + joinList(steps) + "}";
}

namespace {
std::string dumpHex(const gr::Value& v)
{
	std::string t = "Null", x;
	std::vector<std::string> l, k;
	switch (v.type())
	{
		case gr::Type::Map:
			t = "Map";
			for (const auto& e : v) { k.push_back(q(hexs(e.first))); l.push_back(dumpHex(e.second)); }
			break;
		case gr::Type::List:
			t = "List";
			for (const auto& e : v.get<gr::ListType>()) l.push_back(dumpHex(e));
			break;
		case gr::Type::String: t = "String"; x = hexs(v.get<gr::StringType>()); break;
		case gr::Type::Null: break;
		case gr::Type::Boolean: t = "Boolean"; x = v.get<gr::BooleanType>() ? "true" : "false"; break;
		case gr::Type::Int: t = "Int"; x = std::to_string(v.get<gr::IntType>()); break;
		case gr::Type::Float: t = "Float"; x = fmtDouble(v.get<gr::FloatType>()); break;
		case gr::Type::EnumValue: t = "Enum"; x = hexs(v.get<gr::StringType>()); break;
		case gr::Type::Scalar: t = "Scalar"; try { l.push_back(dumpHex(v.get<gr::ScalarType>())); } catch (const std::logic_error&) {} break;
	}
	return "{\"t\":" + q(t) + ",\"v\":" + q(x) + ",\"l\":" + joinList(l) + ",\"k\":" + joinList(k) + "}";
}
std::string readBack(const std::string& text)
{
	try { return "{\"r\":\"ok\",\"v\":" + dumpHex(gr::parseJSON(text)) + "}"; }
	catch (const std::exception& e) { return "{\"r\":\"error\",\"v\":" + canon("Null", "") + "}"; }
}
}

std::string modeJson(const JV& j)
{
	if (sv(j["op"]) == "write")
	{
		auto v = fromCanon(j["v"]);
		auto d = dumpHex(v);
		auto text = gr::toJSON(std::move(v));
		return "{\"of\":" + d + ",\"s\":" + q(hexs(text)) + ",\"back\":" + readBack(text) + "}";
	}
	auto b = unhex(sv(j["s"]));
	const std::string text(b.begin(), b.end());
	return "{\"back\":" + readBack(text) + "}";
}
