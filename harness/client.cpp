// Client side: variables, responses, and splitting of service responses; also Base64.
#include "graphqlservice/GraphQLClient.h"
#include "conv.h"
#include "graphqlservice/internal/Base64.h"
#include "x_client.h"

namespace gc = graphql::client;
using CM = gc::TypeModifier;

namespace {
template <class T> struct B;
template <> struct B<gr::IntType> { static gr::IntType of(const JV& v) { return std::stoi(v["v"].GetString()); } };
template <> struct B<gr::FloatType> { static gr::FloatType of(const JV& v) { return std::strtod(v["v"].GetString(), nullptr); } };
template <> struct B<bool> { static bool of(const JV& v) { return sv(v["v"]) == "true"; } };
template <> struct B<std::string> { static std::string of(const JV& v) { return str(v["v"]); } };
template <> struct B<gr::IdType> { static gr::IdType of(const JV& v) { return unhex(sv(v["v"])); } };
template <> struct B<gr::Value> { static gr::Value of(const JV& v) { return fromCanon(v); } };
template <class T> struct B<std::optional<T>>
{
	static std::optional<T> of(const JV& v)
	{
		if (sv(v["t"]) == "Null") return std::nullopt;
		return std::make_optional<T>(B<T>::of(v));
	}
};
template <class T> struct BL
{
	static std::vector<T> of(const JV& v)
	{
		std::vector<T> r;
		for (auto& e : v["l"].GetArray()) r.push_back(B<T>::of(e));
		return r;
	}
};
template <class T> struct B<std::vector<T>> : BL<T> {};

using Fn = std::string (*)(const JV&);
template <class T, CM... M> std::string parsed(gr::Value&& v)
{
	try
	{
		return "{\"ok\":\"1\",\"v\":" + dumpArg(gc::ModifiedResponse<T>::template parse<M...>(std::move(v))) + "}";
	}
	catch (const std::exception&) { return "{\"ok\":\"0\",\"v\":" + canon("Null", "") + "}"; }
}
template <class T, CM... M> std::string varFn(const JV& v)
{
	using V = typename gc::ModifiedVariable<T>::template VariableTraits<T, M...>::type;
	V typed = B<V>::of(v);
	auto wire = gc::ModifiedVariable<T>::template serialize<M...>(std::move(typed));
	auto w = dump(wire);
	return "{\"wire\":" + w + ",\"back\":" + parsed<T, M...>(std::move(wire)) + "}";
}
template <class T, CM... M> std::string respFn(const JV& v) { return parsed<T, M...>(fromCanon(v)); }

struct Tab { std::map<std::string, Fn> var, resp; };
template <class T, CM... M> void put(Tab& t, const char* m) { t.var[m] = varFn<T, M...>; t.resp[m] = respFn<T, M...>; }
template <class T> Tab make()
{
	constexpr auto Q = CM::Nullable;
	constexpr auto L = CM::List;
	Tab t;
	put<T>(t, ""); put<T, Q>(t, "Q"); put<T, L>(t, "L"); put<T, L, Q>(t, "LQ"); put<T, Q, L>(t, "QL"); put<T, Q, L, Q>(t, "QLQ");
	put<T, L, L>(t, "LL"); put<T, L, L, Q>(t, "LLQ"); put<T, L, Q, L>(t, "LQL"); put<T, L, Q, L, Q>(t, "LQLQ");
	put<T, Q, L, L>(t, "QLL"); put<T, Q, L, L, Q>(t, "QLLQ"); put<T, Q, L, Q, L>(t, "QLQL"); put<T, Q, L, Q, L, Q>(t, "QLQLQ");
	put<T, L, L, L>(t, "LLL"); put<T, Q, L, Q, L, Q, L, Q>(t, "QLQLQLQ");
	return t;
}
const Tab& tab(const std::string& n)
{
	static const std::map<std::string, Tab> all { { "Int", make<gr::IntType>() }, { "Float", make<gr::FloatType>() }, { "String", make<std::string>() },
		{ "Boolean", make<bool>() }, { "ID", make<gr::IdType>() }, { "Scalar", make<gr::Value>() } };
	return all.at(n);
}
}

// Generated clients, by the name they registered.
std::map<std::string, ClientFn>& clients()
{
	static std::map<std::string, ClientFn> all;
	return all;
}
std::string modeClients(const JV& j) { return clients().at(str(j["c"]))(j); }

std::string modeClient(const JV& j)
{
	const auto op = sv(j["op"]);
	if (op == "var") return tab(str(j["type"])).var.at(str(j["mods"]))(j["v"]);
	if (op == "resp") return tab(str(j["type"])).resp.at(str(j["mods"]))(j["v"]);
	auto r = gc::parseServiceResponse(fromCanon(j["v"]));
	std::vector<std::string> errs;
	for (auto& e : r.errors)
	{
		std::vector<std::string> locs, path;
		for (auto& l : e.locations) locs.push_back("[" + q(std::to_string(l.line)) + "," + q(std::to_string(l.column)) + "]");
		for (auto& p : e.path) path.push_back(p.index() == 0 ? "[\"s\"," + q(std::get<0>(p)) + "]" : "[\"i\"," + q(std::to_string(std::get<1>(p))) + "]");
		errs.push_back("{\"m\":" + q(e.message) + ",\"locs\":" + joinList(locs) + ",\"path\":" + joinList(path) + "}");
	}
	return "{\"data\":" + dump(r.data) + ",\"errors\":" + joinList(errs) + "}";
}

// One line has many items: {"enc": hex} or {"dec": hex of the text}; the answer lists what every way of doing it gives, as hex.
std::string modeBase64(const JV& j)
{
	std::vector<std::string> out;
	auto hexs = [](const std::string& s) { return hex(std::vector<uint8_t>(s.begin(), s.end())); };
	for (auto& it : j["items"].GetArray())
	{
		std::vector<std::string> r;
		const bool enc = sv(it["op"]) == "enc";
		const auto bytes = unhex(sv(it["s"]));
		const std::string text(bytes.begin(), bytes.end());
		auto one = [&](auto&& f) {
			try { auto x = f(); r.push_back(q("=" + hex(std::vector<uint8_t>(x.begin(), x.end())))); }
			catch (const std::exception&) { r.push_back("\"error\""); }
		};
		using B64 = graphql::internal::Base64;
		if (enc)
		{
			one([&] { return B64::toBase64(bytes); });
			one([&] { return gr::Value(bytes).get<std::string>(); });
			one([&] { gr::Value v("x"); v.set<gr::IdType>(bytes); return v.release<std::string>(); });
			one([&] { auto b = bytes; return gc::IdVariable::serialize(std::move(b)).release<std::string>(); });
			one([&] { return B64::fromBase64(B64::toBase64(bytes)); });
			one([&] { return gr::Value(bytes).get<gr::IdType>(); });
		}
		else
		{
			one([&] { return B64::fromBase64(text); });
			one([&] { return gr::Value(std::string(text)).get<gr::IdType>(); });
			one([&] { return gr::Value(std::string(text)).release<gr::IdType>(); });
			one([&] { return gc::IdResponse::parse(gr::Value(std::string(text))); });
			one([&] { gr::Value m(gr::Type::Map); m.emplace_back("a", gr::Value(std::string(text))); return gs::IdArgument::require("a", m); });
			one([&] { gr::Value m(gr::Type::Map); m.emplace_back("a", gr::Value(gr::Value(std::string(text)).from_json())); return *gs::IdArgument::require<TM::Nullable>("a", m); });
		}
		out.push_back(joinList(r));
	}
	return "{\"r\":" + joinList(out) + "}";
}
