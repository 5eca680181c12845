#pragma once
#include "world.h"

using TM = gs::TypeModifier;

template <class T> struct Dump;
template <> struct Dump<gr::IntType> { static std::string of(gr::IntType v) { return canon("Int", std::to_string(v)); } };
template <> struct Dump<gr::FloatType> { static std::string of(gr::FloatType v) { return canon("Float", fmtDouble(v)); } };
template <> struct Dump<bool> { static std::string of(bool v) { return canon("Boolean", v ? "true" : "false"); } };
template <> struct Dump<std::string> { static std::string of(const std::string& v) { return canon("String", v); } };
template <> struct Dump<gr::IdType> { static std::string of(const gr::IdType& v) { return canon("ID", hex(v)); } };
template <> struct Dump<gr::Value> { static std::string of(const gr::Value& v) { return dump(v); } };
template <class T> struct Dump<std::optional<T>> { static std::string of(const std::optional<T>& v) { return v ? Dump<T>::of(*v) : canon("Null", ""); } };
template <class T> struct DumpList
{
	static std::string of(const std::vector<T>& v)
	{
		std::vector<std::string> l;
		for (auto&& e : v) l.push_back(Dump<T>::of(e));
		return "{\"t\":\"List\",\"v\":\"\",\"l\":" + joinList(l) + ",\"k\":[]}";
	}
};
template <class T> struct Dump<std::vector<T>> : DumpList<T> {};
template <class T> std::string dumpArg(const T& v) { return Dump<T>::of(v); }

template <class T> struct Build;
template <> struct Build<gr::IntType> { static gr::IntType from(World&, const JV& v) { return std::stoi(v["v"].GetString()); } };
template <> struct Build<gr::FloatType> { static gr::FloatType from(World&, const JV& v) { return std::strtod(v["v"].GetString(), nullptr); } };
template <> struct Build<bool> { static bool from(World&, const JV& v) { return sv(v["v"]) == "true"; } };
template <> struct Build<std::string> { static std::string from(World&, const JV& v) { return str(v["v"]); } };
template <> struct Build<gr::IdType> { static gr::IdType from(World&, const JV& v) { return unhex(sv(v["v"])); } };
template <> struct Build<gr::Value> { static gr::Value from(World&, const JV& v) { return fromCanon(v); } };
template <class O> struct Build<std::shared_ptr<O>>
{
	static std::shared_ptr<O> from(World& w, const JV& v)
	{
		if (sv(v["t"]) == "Null") return nullptr;
		return std::static_pointer_cast<O>(w.obj(str(v["v"])));
	}
};
template <class T> struct Build<std::optional<T>>
{
	static std::optional<T> from(World& w, const JV& v)
	{
		if (sv(v["t"]) == "Null") return std::nullopt;
		return std::make_optional<T>(Build<T>::from(w, v));
	}
};
template <class T> struct BuildList
{
	static std::vector<T> from(World& w, const JV& v)
	{
		std::vector<T> r;
		for (auto& e : v["l"].GetArray()) r.push_back(Build<T>::from(w, e));
		return r;
	}
};
template <class T> struct Build<std::vector<T>> : BuildList<T> {};

template <class T, TM... M> std::string argFn(const std::string& name, const gr::Value& args)
{
	// find must agree with require about an argument which was provided, and finds nothing otherwise
	const bool provided = args.find(name) != args.get<gr::MapType>().cend();
	auto found = gs::ModifiedArgument<T>::template find<M...>(name, args);
	try
	{
		auto v = gs::ModifiedArgument<T>::template require<M...>(name, args);
		if (found.second != provided) return "{\"ok\":\"mismatch\"}";
		return "{\"ok\":\"1\",\"v\":" + dumpArg(v) + "}";
	}
	catch (...)
	{
		if (found.second) return "{\"ok\":\"mismatch\"}";
		throw;
	}
}

template <class T, TM... M> std::future<gs::ResolverResult> convFn(const Beh& b, gs::ResolverParams&& p)
{
	using R = typename gs::ModifiedResult<T>::template ResultTraits<T, M...>::type;
	const JV* j = &b.j;
	World* w = &b.w;
	auto make = [j, w]() -> R {
		if (has(*j, "err") && (*j)["err"].Size() > 0) throwErr((*j)["err"][0]);
		return Build<R>::from(*w, (*j)["val"]);
	};
	const auto how = b.how();
	using F = std::conditional_t<std::is_same_v<T, gs::Object> && sizeof...(M) == 0, std::shared_ptr<gs::Object>, R>;
	if (how == "deferred")
		return gs::ModifiedResult<T>::template convert<M...>(gs::FieldResult<F>(std::async(std::launch::deferred, make)), std::move(p));
	if (how == "async")
	{
		auto lazy = [make, path = b.path]() {
			std::this_thread::sleep_for(std::chrono::microseconds((std::hash<std::string>()(path) % 7) * 150));
			return make();
		};
		return gs::ModifiedResult<T>::template convert<M...>(gs::FieldResult<F>(std::async(std::launch::async, lazy)), std::move(p));
	}
	if (how == "broken")
		return gs::ModifiedResult<T>::template convert<M...>(gs::FieldResult<F>(std::promise<R>().get_future()), std::move(p));
	// Available when the selection set it belongs to ends; the root fields of a mutation are waited for one by one.
	const auto dot = b.path.rfind('.');
	if (how == "batch" && (dot != std::string::npos || p.resolverContext != gs::ResolverContext::Mutation))
	{
		auto promise = std::make_shared<std::promise<R>>();
		gs::FieldResult<F> fr(promise->get_future());
		w->batch(b.st + "/" + (dot == std::string::npos ? "" : b.path.substr(0, dot)), [promise, make]() {
			try { promise->set_value(make()); }
			catch (...) { promise->set_exception(std::current_exception()); }
		});
		return gs::ModifiedResult<T>::template convert<M...>(std::move(fr), std::move(p));
	}
	if (how == "gate")
	{
		auto promise = std::make_shared<std::promise<R>>();
		gs::FieldResult<F> fr(promise->get_future());
		w->gates.add(b.path, [promise, make]() {
			try { promise->set_value(make()); }
			catch (...) { promise->set_exception(std::current_exception()); }
		});
		return gs::ModifiedResult<T>::template convert<M...>(std::move(fr), std::move(p));
	}
	return gs::ModifiedResult<T>::template convert<M...>(gs::FieldResult<F>(make()), std::move(p));
}

template <class T> void fillConv(Tables& t)
{
	constexpr auto Q = TM::Nullable;
	constexpr auto L = TM::List;
	t.conv[""] = convFn<T>;            t.conv["Q"] = convFn<T, Q>;
	t.conv["L"] = convFn<T, L>;        t.conv["LQ"] = convFn<T, L, Q>;
	t.conv["QL"] = convFn<T, Q, L>;    t.conv["QLQ"] = convFn<T, Q, L, Q>;
	t.conv["LL"] = convFn<T, L, L>;    t.conv["LLQ"] = convFn<T, L, L, Q>;
	t.conv["LQL"] = convFn<T, L, Q, L>;  t.conv["LQLQ"] = convFn<T, L, Q, L, Q>;
	t.conv["QLL"] = convFn<T, Q, L, L>;  t.conv["QLLQ"] = convFn<T, Q, L, L, Q>;
	t.conv["QLQL"] = convFn<T, Q, L, Q, L>;  t.conv["QLQLQ"] = convFn<T, Q, L, Q, L, Q>;
}
template <class T> void fillArg(Tables& t)
{
	constexpr auto Q = TM::Nullable;
	constexpr auto L = TM::List;
	t.arg[""] = argFn<T>;            t.arg["Q"] = argFn<T, Q>;
	t.arg["L"] = argFn<T, L>;        t.arg["LQ"] = argFn<T, L, Q>;
	t.arg["QL"] = argFn<T, Q, L>;    t.arg["QLQ"] = argFn<T, Q, L, Q>;
	t.arg["LL"] = argFn<T, L, L>;    t.arg["LLQ"] = argFn<T, L, L, Q>;
	t.arg["LQL"] = argFn<T, L, Q, L>;  t.arg["LQLQ"] = argFn<T, L, Q, L, Q>;
	t.arg["QLL"] = argFn<T, Q, L, L>;  t.arg["QLLQ"] = argFn<T, Q, L, L, Q>;
	t.arg["QLQL"] = argFn<T, Q, L, Q, L>;  t.arg["QLQLQ"] = argFn<T, Q, L, Q, L, Q>;
}
