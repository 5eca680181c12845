// What the driver of a generated client needs (the drivers themselves are written by lib/clientdrv.py).
#pragma once
#include "common.h"
#include "graphqlservice/GraphQLClient.h"
#include "graphqlservice/GraphQLParse.h"
#include <optional>
#include <type_traits>

using ClientFn = std::string (*)(const JV&);
std::map<std::string, ClientFn>& clients();
std::string executableTree(const graphql::peg::ast& a);

template <class T> struct IsOpt : std::false_type {};
template <class T> struct IsOpt<std::optional<T>> : std::true_type {};
template <class T> struct IsList : std::false_type {};
template <class T> struct IsList<std::vector<T>> : std::true_type {};
template <> struct IsList<gr::IdType> : std::false_type {};

// The type without wrappers, and its wrappers and sort as text.
template <class T> struct BaseOf { using type = T; };
template <class T> struct BaseOf<std::optional<T>> : BaseOf<T> {};
template <class T> struct BaseList : BaseOf<T> {};
template <class T> struct BaseOf<std::vector<T>> : BaseList<T> {};
template <> struct BaseOf<gr::IdType> { using type = gr::IdType; };
template <class T> using Base = typename BaseOf<T>::type;
template <class T> std::string typeText()
{
	if constexpr (IsOpt<T>::value) return "Q" + typeText<typename T::value_type>();
	else if constexpr (IsList<T>::value) return "L" + typeText<typename T::value_type>();
	else if constexpr (std::is_same_v<T, gr::IntType>) return ":Int";
	else if constexpr (std::is_same_v<T, gr::FloatType>) return ":Float";
	else if constexpr (std::is_same_v<T, bool>) return ":Boolean";
	else if constexpr (std::is_same_v<T, std::string>) return ":String";
	else if constexpr (std::is_same_v<T, gr::IdType>) return ":ID";
	else if constexpr (std::is_same_v<T, gr::Value>) return ":Value";
	else if constexpr (std::is_enum_v<T>) return ":enum";
	else return ":struct";
}

struct Leaf
{
	std::string operator()(gr::IntType v) const { return canon("Int", std::to_string(v)); }
	std::string operator()(gr::FloatType v) const { return canon("Float", fmtDouble(v)); }
	std::string operator()(bool v) const { return canon("Boolean", v ? "true" : "false"); }
	std::string operator()(const std::string& v) const { return canon("String", v); }
	std::string operator()(const gr::IdType& v) const { return canon("ID", hex(v)); }
	std::string operator()(const gr::Value& v) const { return dump(v); }
};
struct SetLeaf
{
	void operator()(gr::IntType& x, const JV& v) const { x = std::stoi(v["v"].GetString()); }
	void operator()(gr::FloatType& x, const JV& v) const { x = std::strtod(v["v"].GetString(), nullptr); }
	void operator()(bool& x, const JV& v) const { x = sv(v["v"]) == "true"; }
	void operator()(std::string& x, const JV& v) const { x = str(v["v"]); }
	void operator()(gr::IdType& x, const JV& v) const { x = unhex(sv(v["v"])); }
	void operator()(gr::Value& x, const JV& v) const { x = fromCanon(v); }
};
template <class T, class F> std::string dumpWith(const T& v, const F& leaf)
{
	if constexpr (IsOpt<T>::value) return v ? dumpWith(*v, leaf) : canon("Null", "");
	else if constexpr (IsList<T>::value)
	{
		std::vector<std::string> l;
		for (size_t i = 0; i < v.size(); ++i)
		{
			if constexpr (std::is_same_v<typename T::value_type, bool>) l.push_back(leaf(static_cast<bool>(v[i])));
			else l.push_back(dumpWith(v[i], leaf));
		}
		return "{\"t\":\"List\",\"v\":\"\",\"l\":" + joinList(l) + ",\"k\":[]}";
	}
	else return leaf(v);
}
template <class T, class F> void buildWith(T& x, const JV& v, const F& leaf)
{
	if constexpr (IsOpt<T>::value)
	{
		x = std::nullopt;
		if (sv(v["t"]) == "Null") return;
		typename T::value_type y {};
		buildWith(y, v, leaf);
		x = std::move(y);
	}
	else if constexpr (IsList<T>::value)
	{
		x.clear();
		for (auto& e : v["l"].GetArray())
		{
			typename T::value_type y {};
			buildWith(y, e, leaf);
			x.push_back(std::move(y));
		}
	}
	else leaf(x, v);
}
inline const JV& memberOf(const JV& v, std::string_view n)
{
	for (rapidjson::SizeType i = 0; i < v["k"].Size(); ++i)
		if (sv(v["k"][i]) == n) return v["l"][i];
	throw std::logic_error("no member " + std::string(n));
}

struct Members
{
	std::vector<std::string> k, l;
	void add(std::string_view n, std::string v) { k.push_back(q(n)); l.push_back(std::move(v)); }
	std::string done() const { return "{\"t\":\"Map\",\"v\":\"\",\"l\":" + joinList(l) + ",\"k\":" + joinList(k) + "}"; }
};
struct Types
{
	std::vector<std::string> l;
	void add(const char* path, const std::string& t) { l.push_back("[" + q(path) + "," + q(t) + "]"); }
};
inline std::string bytesOf(const std::string& s) { return q(hex(std::vector<uint8_t>(s.begin(), s.end()))); }
