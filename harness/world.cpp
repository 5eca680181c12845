#include "world.h"
#include <algorithm>
#include <stdexcept>

using graphql::introspection::DirectiveLocation;
using graphql::introspection::TypeKind;

std::map<std::string, GenService>& generated() { static std::map<std::string, GenService> g; return g; }
std::map<std::string, Tables>& tables() { static std::map<std::string, Tables> t; return t; }

void Gates::start(std::vector<std::string> o)
{
	order = std::move(o);
	stop = false;
	worker = std::thread([this] {
		std::unique_lock l(m);
		while (!stop)
		{
			if (waiting.empty()) { cv.wait(l); continue; }
			const auto n = waiting.size();
			if (cv.wait_for(l, std::chrono::microseconds(300), [&] { return stop || waiting.size() != n; }) && stop) break;
			if (waiting.size() != n) continue;           // let everything that is going to wait arrive
			auto best = waiting.begin();
			auto rank = [&](const std::string& p) { return std::find(order.begin(), order.end(), p) - order.begin(); };
			for (auto it = waiting.begin(); it != waiting.end(); ++it)
				if (rank(it->first) < rank(best->first)) best = it;
			auto f = std::move(best->second);
			waiting.erase(best);
			l.unlock();
			f();
			l.lock();
		}
		for (auto& e : waiting) e.second();
		waiting.clear();
	});
}
void Gates::finish()
{
	{ std::lock_guard l(m); stop = true; cv.notify_all(); }
	if (worker.joinable()) worker.join();
}
void Gates::add(const std::string& path, std::function<void()> release)
{
	std::lock_guard l(m);
	waiting[path] = std::move(release);
	cv.notify_all();
}

std::string pathStr(const std::optional<gs::field_path>& p)
{
	std::string r;
	for (auto& s : gs::buildErrorPath(p))
	{
		if (!r.empty()) r += ".";
		if (std::holds_alternative<std::string_view>(s)) r += std::get<std::string_view>(s);
		else r += std::to_string(std::get<size_t>(s));
	}
	return r;
}

std::string typeKey(const JV& w)
{
	std::string r;
	rapidjson::SizeType i = 0;
	for (;;)
	{
		if (i < w.Size() && sv(w[i]) == "N") ++i;
		else r += "Q";
		if (i < w.Size() && sv(w[i]) == "L") { r += "L"; ++i; continue; }
		return r;
	}
}

void throwErr(const JV& e)
{
	const auto k = str(e["k"]);
	if (k == "runtime") throw std::runtime_error(str(e["m"]));
	if (k == "schema") throw gs::schema_exception { { str(e["m"]) } };
	if (k == "schema2") throw gs::schema_exception { { str(e["m"]), str(e["m"]) + " again" } };
	if (k == "located")
		throw gs::schema_exception { { gs::schema_error { str(e["m"]), { 77, 7 }, { gs::path_segment { std::string_view("elsewhere") } } } } };
	throw std::logic_error("bad err");
}

std::string ctxName(gs::ResolverContext c)
{
	switch (c)
	{
		case gs::ResolverContext::Query: return "Query";
		case gs::ResolverContext::Mutation: return "Mutation";
		case gs::ResolverContext::NotifySubscribe: return "NotifySubscribe";
		case gs::ResolverContext::Subscription: return "Subscription";
		case gs::ResolverContext::NotifyUnsubscribe: return "NotifyUnsubscribe";
	}
	return "?";
}

std::string stateId(const gs::SelectionSetParams& p)
{
	return p.state ? std::static_pointer_cast<HState>(p.state)->id : "";
}

bool& requesting() { thread_local bool r = false; return r; }
std::string whereText(const gs::SelectionSetParams& p)
{
	return ",\"la\":" + q(p.launch == std::launch::async ? "async" : p.launch == std::launch::deferred ? "deferred" : "any") + ",\"thr\":" + (requesting() ? "\"1\"" : "\"0\"");
}

HObj::HObj(World& w_, std::string id_, const JV& def_, gs::TypeNames&& tn, gs::ResolverMap&& rm)
	: gs::Object(std::move(tn), std::move(rm)), w(w_), id(std::move(id_)), def(def_)
{
}

void HObj::beginSelectionSet(const gs::SelectionSetParams& p) const { logBegin(w, id, def, p); }
void HObj::endSelectionSet(const gs::SelectionSetParams& p) const { logEnd(w, id, def, p); }

void logBegin(World& w, const std::string& id, const JV& def, const gs::SelectionSetParams& p)
{
	w.log.add("{\"e\":\"begin\",\"p\":" + q(pathStr(p.errorPath)) + ",\"o\":" + q(id) + ",\"ctx\":" + q(ctxName(p.resolverContext))
		+ ",\"od\":" + dump(p.operationDirectives) + ",\"st\":" + q(stateId(p)) + whereText(p) + "}");
	if (has(def, "begin") && def["begin"].Size()) throwErr(def["begin"][0]);
	if (w.onNotify && !p.errorPath && (p.resolverContext == gs::ResolverContext::NotifySubscribe || p.resolverContext == gs::ResolverContext::NotifyUnsubscribe))
	{
		auto f = std::move(w.onNotify);
		w.onNotify = nullptr;
		f();
	}
}

void logEnd(World& w, const std::string& id, const JV& def, const gs::SelectionSetParams& p)
{
	w.log.add("{\"e\":\"end\",\"p\":" + q(pathStr(p.errorPath)) + ",\"o\":" + q(id) + ",\"ctx\":" + q(ctxName(p.resolverContext))
		+ ",\"od\":" + dump(p.operationDirectives) + ",\"st\":" + q(stateId(p)) + whereText(p) + "}");
	w.flush(stateId(p) + "/" + pathStr(p.errorPath));
	if (has(def, "end") && def["end"].Size()) throwErr(def["end"][0]);
}

static std::shared_ptr<const sch::BaseType> wrap(sch::Schema& s, const JV& t)
{
	std::shared_ptr<const sch::BaseType> r = s.LookupType(sv(t["n"]));
	const auto& w = t["w"];
	for (auto i = w.Size(); i-- > 0;)
		r = s.WrapType(sv(w[i]) == "L" ? TypeKind::LIST : TypeKind::NON_NULL, r);
	return r;
}

static std::vector<std::shared_ptr<const sch::InputValue>> inputs(sch::Schema& s, const JV& a)
{
	std::vector<std::shared_ptr<const sch::InputValue>> r;
	for (auto& x : a.GetArray())
		r.push_back(sch::InputValue::Make(sv(x["name"]), has(x, "desc") ? sv(x["desc"]) : std::string_view(""), wrap(s, x["type"]), sv(x["def"])));
	return r;
}

void World::buildSchema(const JV& line)
{
	sdoc.CopyFrom(line, sdoc.GetAllocator());
	const JV& s = sdoc["schema"];
	withIntro = strOr(s, "nointro", "0") != "1";
	schema = std::make_shared<sch::Schema>(!withIntro);
	graphql::introspection::AddTypesToSchema(schema);

	std::map<std::string, std::shared_ptr<sch::ObjectType>> ot;
	std::map<std::string, std::shared_ptr<sch::InterfaceType>> it;
	std::map<std::string, std::shared_ptr<sch::UnionType>> ut;
	std::map<std::string, std::shared_ptr<sch::EnumType>> et;
	std::map<std::string, std::shared_ptr<sch::InputObjectType>> nt;
	auto desc = [](const JV& t) { return has(t, "desc") ? sv(t["desc"]) : std::string_view(""); };
	for (auto& t : s["types"].GetArray())
	{
		const auto kind = sv(t["kind"]);
		const auto name = sv(t["name"]);
		kinds[std::string(name)] = std::string(kind);
		std::shared_ptr<sch::BaseType> made;
		if (kind == "SCALAR") made = sch::ScalarType::Make(name, desc(t));
		else if (kind == "OBJECT") made = ot[str(t["name"])] = sch::ObjectType::Make(name, desc(t));
		else if (kind == "INTERFACE") made = it[str(t["name"])] = sch::InterfaceType::Make(name, desc(t));
		else if (kind == "UNION") made = ut[str(t["name"])] = sch::UnionType::Make(name, desc(t));
		else if (kind == "ENUM") made = et[str(t["name"])] = sch::EnumType::Make(name, desc(t));
		else made = nt[str(t["name"])] = sch::InputObjectType::Make(name, desc(t));
		schema->AddType(name, made);
	}
	auto fields = [&](const JV& t) {
		std::vector<std::shared_ptr<const sch::Field>> r;
		for (auto& f : t["fields"].GetArray())
		{
			std::optional<std::string_view> dep;
			if (has(f, "dep") && f["dep"].Size()) dep = sv(f["dep"][0]);
			r.push_back(sch::Field::Make(sv(f["name"]), desc(f), dep, wrap(*schema, f["type"]), inputs(*schema, f["args"])));
			FieldDef d { str(f["name"]), { str(f["type"]["n"]), typeKey(f["type"]["w"]) }, {} };
			for (auto& a : f["args"].GetArray())
				d.args.push_back({ str(a["name"]), { str(a["type"]["n"]), typeKey(a["type"]["w"]) } });
			types[str(t["name"])][d.name] = d;
		}
		return r;
	};
	for (auto& t : s["types"].GetArray())
	{
		const auto kind = sv(t["kind"]);
		const auto name = str(t["name"]);
		if (kind == "OBJECT")
		{
			typeNames[name].insert(name);
			if (t["ifaces"].Size())
			{
				std::vector<std::shared_ptr<const sch::InterfaceType>> l;
				for (auto& i : t["ifaces"].GetArray())
				{
					l.push_back(it.at(str(i)));
					typeNames[name].insert(str(i));
				}
				ot[name]->AddInterfaces(std::move(l));
			}
			ot[name]->AddFields(fields(t));
		}
		else if (kind == "INTERFACE") it[name]->AddFields(fields(t));
		else if (kind == "UNION")
		{
			std::vector<std::weak_ptr<const sch::BaseType>> l;
			for (auto& m : t["members"].GetArray())
			{
				l.push_back(schema->LookupType(sv(m)));
				typeNames[str(m)].insert(name);
			}
			ut[name]->AddPossibleTypes(std::move(l));
		}
		else if (kind == "ENUM")
		{
			std::vector<sch::EnumValueType> l;
			for (auto& v : t["values"].GetArray())
			{
				std::optional<std::string_view> dep;
				if (has(v, "dep") && v["dep"].Size()) dep = sv(v["dep"][0]);
				l.push_back({ sv(v["name"]), desc(v), dep });
			}
			et[name]->AddEnumValues(std::move(l));
		}
		else if (kind == "INPUT") nt[name]->AddInputValues(inputs(*schema, t["inputs"]));
	}
	static const std::map<std::string, DirectiveLocation> locs {
		{ "QUERY", DirectiveLocation::QUERY }, { "MUTATION", DirectiveLocation::MUTATION }, { "SUBSCRIPTION", DirectiveLocation::SUBSCRIPTION },
		{ "FIELD", DirectiveLocation::FIELD }, { "FRAGMENT_DEFINITION", DirectiveLocation::FRAGMENT_DEFINITION },
		{ "FRAGMENT_SPREAD", DirectiveLocation::FRAGMENT_SPREAD }, { "INLINE_FRAGMENT", DirectiveLocation::INLINE_FRAGMENT },
		{ "SCHEMA", DirectiveLocation::SCHEMA }, { "SCALAR", DirectiveLocation::SCALAR }, { "OBJECT", DirectiveLocation::OBJECT },
		{ "FIELD_DEFINITION", DirectiveLocation::FIELD_DEFINITION }, { "ARGUMENT_DEFINITION", DirectiveLocation::ARGUMENT_DEFINITION },
		{ "INTERFACE", DirectiveLocation::INTERFACE }, { "UNION", DirectiveLocation::UNION }, { "ENUM", DirectiveLocation::ENUM },
		{ "ENUM_VALUE", DirectiveLocation::ENUM_VALUE }, { "INPUT_OBJECT", DirectiveLocation::INPUT_OBJECT },
		{ "INPUT_FIELD_DEFINITION", DirectiveLocation::INPUT_FIELD_DEFINITION },
	};
	for (auto& d : s["directives"].GetArray())
	{
		if (strOr(d, "builtin", "0") == "1") continue;
		std::vector<DirectiveLocation> l;
		for (auto& x : d["locs"].GetArray()) l.push_back(locs.at(str(x)));
		schema->AddDirective(sch::Directive::Make(sv(d["name"]), desc(d), std::move(l), inputs(*schema, d["args"])));
	}
	if (sv(s["query"]) != "") schema->AddQueryType(ot.at(str(s["query"])));
	if (sv(s["mutation"]) != "") schema->AddMutationType(ot.at(str(s["mutation"])));
	if (sv(s["subscription"]) != "") schema->AddSubscriptionType(ot.at(str(s["subscription"])));
}

void World::setObjects(const JV& o)
{
	objs.clear();
	odoc.SetNull();
	odoc.CopyFrom(o, odoc.GetAllocator());
}

std::shared_ptr<gs::Object> World::obj(const std::string& id)
{
	static std::mutex m;
	std::lock_guard l(m);
	auto itr = objs.find(id);
	if (itr != objs.end()) return itr->second;
	for (auto& d : odoc.GetArray())
		if (sv(d["id"]) == id) return objs[id] = factory ? factory(id, d) : makeObj(id, d);
	throw std::logic_error("no object " + id);
}

std::shared_ptr<HObj> World::makeObj(const std::string& id, const JV& def)
{
	const auto type = str(def["type"]);
	gs::TypeNames tn;
	for (auto& n : typeNames.at(type)) tn.emplace(n);
	gs::ResolverMap rm;
	for (auto& f : types.at(type))
	{
		const FieldDef* fd = &f.second;
		rm.emplace(fd->name, [this, fd, id, &def](gs::ResolverParams&& p) -> std::future<gs::ResolverResult> {
			const auto path = pathStr(p.errorPath);
			std::vector<std::string> args;
			std::exception_ptr bad;
			for (auto& a : fd->args)
			{
				auto k = kinds.find(a.type.n);
				const bool scalar = tables().count(a.type.n) && a.type.n != "Object" && a.type.n != "Derived" && k == kinds.end();
				auto fn = tables()[scalar ? a.type.n : "Scalar"].arg.at(a.type.mods);
				std::string r;
				try { r = fn(a.name, p.arguments); }
				catch (const gs::schema_exception& ex) { r = "{\"ok\":\"0\",\"m\":" + q(ex.what()) + "}"; if (!bad) bad = std::current_exception(); }
				catch (const std::exception& ex) { r = "{\"ok\":\"0\",\"m\":\"\"}"; if (!bad) bad = std::current_exception(); }
				args.push_back("{\"n\":" + q(a.name) + ",\"r\":" + r + "}");
			}
			log.add("{\"e\":\"call\",\"p\":" + q(path) + ",\"o\":" + q(id) + ",\"f\":" + q(fd->name) + ",\"rn\":" + q(p.fieldName)
				+ ",\"ctx\":" + q(ctxName(p.resolverContext)) + ",\"st\":" + q(stateId(p)) + ",\"line\":" + q(std::to_string(p.getLocation().line))
				+ ",\"col\":" + q(std::to_string(p.getLocation().column)) + ",\"raw\":" + dump(p.arguments) + ",\"args\":" + joinList(args)
				+ ",\"od\":" + dump(p.operationDirectives) + ",\"fdd\":" + dump(p.fragmentDefinitionDirectives) + ",\"fsd\":"
				+ dump(p.fragmentSpreadDirectives) + ",\"ifd\":" + dump(p.inlineFragmentDirectives) + ",\"fd\":" + dump(p.fieldDirectives)
				+ whereText(p) + "}");
			struct Ret
			{
				World* w; std::string p, st;
				~Ret() { w->log.add("{\"e\":\"ret\",\"p\":" + q(p) + ",\"st\":" + q(st) + "}"); }
			} ret { this, path, stateId(p) };
			if (bad) std::rethrow_exception(bad);
			const JV& b = def["fields"][fd->name.c_str()];
			Beh beh { *this, b, path, stateId(p) };
			if (beh.how() == "value" && beh.fails()) throwErr(b["err"][0]);
			auto k = kinds.find(fd->type.n);
			std::string base = fd->type.n;
			if (k != kinds.end())
				base = (k->second == "OBJECT" || k->second == "INTERFACE" || k->second == "UNION")
					? (strOr(b, "derived", "0") == "1" ? "Derived" : "Object") : "Scalar";
			return tables()[base].conv.at(fd->type.mods)(beh, std::move(p));
		});
	}
	const std::string* tname = &typeNames.find(type)->first;
	rm.emplace(std::string_view("__typename"), [tname](gs::ResolverParams&& p) {
		return gs::ModifiedResult<gr::StringType>::convert(gr::StringType { *tname }, std::move(p));
	});
	if (withIntro && type == str(sdoc["schema"]["query"]))
	{
		rm.emplace(std::string_view("__schema"), [this](gs::ResolverParams&& p) {
			return gs::ModifiedResult<gs::Object>::convert(
				std::static_pointer_cast<gs::Object>(std::make_shared<graphql::introspection::Schema>(schema)), std::move(p));
		});
		rm.emplace(std::string_view("__type"), [this](gs::ResolverParams&& p) {
			auto name = gs::ModifiedArgument<gr::StringType>::require("name", p.arguments);
			const auto& base = schema->LookupType(name);
			std::shared_ptr<graphql::introspection::object::Type> r { base ? std::make_shared<graphql::introspection::Type>(base) : nullptr };
			return gs::ModifiedResult<graphql::introspection::object::Type>::convert<gs::TypeModifier::Nullable>(std::move(r), std::move(p));
		});
	}
	return std::make_shared<HObj>(*this, id, def, std::move(tn), std::move(rm));
}

World::~World() { gates.finish(); }
