// Runs the steps of one case (resolve, validate, subscribe, unsubscribe, deliver) against one service object.
#include "world.h"
#include "graphqlservice/JSONResponse.h"
#include <atomic>
#include <unistd.h>

namespace {

struct Svc : gs::Request
{
	Svc(gs::TypeMap&& ops, const std::shared_ptr<sch::Schema>& s) : gs::Request(std::move(ops), s) {}
	~Svc() override = default;
};

std::unique_ptr<World> world;

std::string errText(const gs::schema_error& e)
{
	std::vector<std::string> p;
	for (auto& s : e.path)
		p.push_back(std::holds_alternative<std::string_view>(s) ? q(std::get<std::string_view>(s)) : q(std::to_string(std::get<size_t>(s))));
	return "{\"m\":" + q(e.message) + ",\"line\":" + q(std::to_string(e.location.line)) + ",\"col\":" + q(std::to_string(e.location.column))
		+ ",\"path\":" + joinList(p) + "}";
}

std::string errList(std::list<gs::schema_error>&& l)
{
	std::vector<std::string> r;
	for (auto& e : l) r.push_back(errText(e));
	return joinList(r);
}

// Runs f and describes how it ended.
template <class F> std::string outcome(F&& f)
{
	try { return f(); }
	catch (gs::schema_exception& ex)
	{
		std::string what = ex.what();
		return "\"r\":\"schema\",\"what\":" + q(what) + ",\"errs\":" + errList(ex.getStructuredErrors());
	}
	catch (const std::exception& ex) { return "\"r\":\"exception\",\"what\":" + q(ex.what()); }
	catch (...) { return "\"r\":\"unknown\""; }
}

std::launch launchOf(const JV& s)
{
	const auto l = strOr(s, "launch", "deferred");
	return l == "async" ? std::launch::async : l == "any" ? (std::launch::async | std::launch::deferred) : std::launch::deferred;
}

struct Case
{
	std::shared_ptr<gs::Request> svc, other;            // other: a second service on the same schema and objects
	std::function<std::shared_ptr<gs::Request>()> make;  // further ones
	std::map<std::string, size_t> keys;
	std::map<std::string, std::shared_ptr<HState>> states;
	std::map<std::string, graphql::peg::ast> docs;      // documents kept from one step to another, by label

	std::mutex m;
	std::shared_ptr<gs::RequestState> state(const JV& s)
	{
		std::lock_guard l(m);
		auto id = strOr(s, "st");
		if (id.empty()) return nullptr;
		auto& p = states[id];
		if (!p) { p = std::make_shared<HState>(); p->id = id; }
		return p;
	}
	gr::Value vars(const JV& s) { return has(s, "vars") ? fromCanon(s["vars"]) : gr::Value(gr::Type::Map); }
};

// A document text that disappears as soon as the returned ast is not used any more.
bool parse(const JV& s, graphql::peg::ast& a, std::string& err)
{
	std::string text = str(s["doc"]);
	try { a = graphql::peg::parseString(text); std::fill(text.begin(), text.end(), '~'); return true; }
	catch (const std::exception& ex) { err = ex.what(); return false; }
}

gs::SubscriptionArguments subArgs(const JV& s, const char* k)
{
	gs::SubscriptionArguments r;
	for (rapidjson::SizeType i = 0; i < s[k]["k"].Size(); ++i) r.emplace(sv(s[k]["k"][i]), fromCanon(s[k]["l"][i]));
	return r;
}

// An event delivered while the subscription object is being notified.
void nest(Case& c, const JV& s)
{
	if (strOr(s, "nested") == "") return;
	world->onNotify = [svc = c.svc.get(), field = str(s["nested"]), o = world->obj(str(s["nobj"]))] { svc->deliver(field, o); };
}

// One request and its document; ready: what became of its future while nobody waited for the result.
std::string request(Case& c, const JV& s, graphql::peg::ast& ast, bool log, gs::Request* svc)
{
	return outcome([&] {
		const bool unchecked = strOr(s, "unchecked") == "1";
		const bool byDefault = strOr(s, "launch") == "default";
		auto f = unchecked
			? (byDefault ? svc->resolve(c.state(s), *ast.root, strOr(s, "opname"), c.vars(s)) : svc->resolve(launchOf(s), c.state(s), *ast.root, strOr(s, "opname"), c.vars(s)))
			: (byDefault ? svc->resolve(c.state(s), ast, strOr(s, "opname"), c.vars(s)) : svc->resolve(launchOf(s), c.state(s), ast, strOr(s, "opname"), c.vars(s)));
		if (log) world->log.add("{\"e\":\"returned\"}");
		std::string ready = "unknown";
		if (strOr(s, "patient") == "1")
		{
			const auto r = f.wait_for(std::chrono::seconds(15));
			ready = r == std::future_status::ready ? "ready" : r == std::future_status::deferred ? "deferred" : "timeout";
		}
		auto v = f.get();
		if (log) world->log.add("{\"e\":\"done\"}");
		return "\"r\":\"doc\",\"ready\":" + q(ready) + ",\"doc\":" + dump(v);
	});
}

// Requests made at the same time by several threads, each with its own state object; the log tells them apart by it.
std::string parallel(Case& c, const JV& s)
{
	const auto& ts = s["threads"];
	std::vector<std::vector<std::string>> res(ts.Size());
	std::vector<std::thread> threads;
	std::atomic<size_t> here { 0 };
	std::map<std::string, graphql::peg::ast> shared;      // documents parsed once and marked as validated, as generated clients do
	for (auto& t : ts.GetArray())
		for (auto& r : t.GetArray())
		{
			c.state(r);
			graphql::peg::ast a, b;
			std::string err;
			if (!has(s, "share") || shared.count(str(r["doc"])) || !parse(r, a, err) || !parse(r, b, err)) continue;
			a.validated = c.svc->validate(b).empty();
			if (a.validated) shared.emplace(str(r["doc"]), std::move(a));
		}
	for (rapidjson::SizeType i = 0; i < ts.Size(); ++i)
		threads.emplace_back([&, i] {
			requesting() = true;
			++here;
			while (here < ts.Size()) {}
			const auto own = c.make ? c.make() : c.svc;
			for (auto& r : ts[i].GetArray())
			{
				graphql::peg::ast a;
				std::string err;
				const auto sh = shared.find(str(r["doc"]));
				if (sh != shared.end()) res[i].push_back("{" + request(c, r, sh->second, false, own.get()) + "}");
				else if (!parse(r, a, err)) res[i].push_back("{\"r\":\"parse\",\"what\":" + q(err) + "}");
				else if (strOr(r, "op") == "validate")
					res[i].push_back("{" + outcome([&] { return "\"r\":\"errors\",\"errs\":" + errList(c.svc->validate(a)); }) + "}");
				else res[i].push_back("{" + request(c, r, a, false, i % 2 && c.other ? c.other.get() : own.get()) + "}");
			}
		});
	for (auto& t : threads) t.join();
	std::vector<std::string> out;
	for (auto& r : res) out.push_back(joinList(r));
	return "{\"op\":\"parallel\",\"r\":\"ok\",\"threads\":" + joinList(out) + ",\"ev\":" + world->log.take() + "}";
}

std::string step(Case& c, const JV& s)
{
	if (sv(s["op"]) == "parallel") return parallel(c, s);
	requesting() = true;
	const auto op = str(s["op"]);
	std::string err;
	std::string res;
	graphql::peg::ast local;
	graphql::peg::ast* ast = &local;
	if (has(s, "doc"))
	{
		if (!parse(s, local, err)) return "{\"op\":" + q(op) + ",\"r\":\"parse\",\"what\":" + q(err) + ",\"ev\":[]}";
		if (has(s, "keep")) { c.docs[str(s["keep"])] = local; ast = &c.docs[str(s["keep"])]; }
	}
	else if (has(s, "use")) ast = &c.docs.at(str(s["use"]));

	if (op == "resolve")
	{
		std::vector<std::string> order;
		if (has(s, "gates")) for (auto& g : s["gates"].GetArray()) order.push_back(str(g));
		world->gates.start(order);
		res = request(c, s, *ast, true, c.svc.get());
		world->gates.finish();
	}
	else if (op == "validate")
	{
		res = outcome([&] { return "\"r\":\"errors\",\"errs\":" + errList(c.svc->validate(*ast)) + ",\"flag\":" + (ast->validated ? "\"1\"" : "\"0\""); });
	}
	else if (op == "subscribe")
	{
		const auto label = str(s["sid"]);
		World* w = world.get();
		const bool cbThrows = strOr(s, "cb") == "throw";
		auto cb = [w, label, cbThrows](std::future<gr::Value> f) {
			std::string r = outcome([&] { return "\"r\":\"doc\",\"doc\":" + dump(f.get()); });
			w->log.add("{\"e\":\"cb\",\"sid\":" + q(label) + ",\"thr\":" + (requesting() ? "\"1\"," : "\"0\",") + r + "}");
			if (cbThrows) throw std::runtime_error("callback " + label);
		};
		if (ast != &local) local = *ast;      // a kept document stays usable
		gs::SubscriptionParams params { c.state(s), std::move(local), strOr(s, "opname"), c.vars(s) };
		local = {};
		nest(c, s);
		const auto l = strOr(s, "launch", "sync");
		res = outcome([&] {
			size_t key = l == "sync" ? c.svc->subscribe(std::move(params), cb) : c.svc->subscribe(launchOf(s), std::move(params), cb).get();
			c.keys[label] = key;
			return "\"r\":\"key\",\"key\":" + q(std::to_string(key));
		});
		world->onNotify = nullptr;
	}
	else if (op == "unsubscribe")
	{
		const auto label = strOr(s, "sid");
		size_t key = c.keys.count(label) ? c.keys[label] : has(s, "key") ? std::stoul(str(s["key"])) : 999999;
		const auto l = strOr(s, "launch", "sync");
		nest(c, s);
		res = outcome([&] {
			if (l == "sync") c.svc->unsubscribe(key);
			else c.svc->unsubscribe(launchOf(s), key).get();
			return std::string("\"r\":\"ok\"");
		});
		world->onNotify = nullptr;
		res += ",\"key\":" + q(std::to_string(key));
	}
	else if (op == "deliver")
	{
		const auto form = str(s["form"]);
		const auto field = str(s["field"]);
		const auto l = strOr(s, "launch", "sync");
		std::shared_ptr<gs::Object> o;
		if (strOr(s, "obj") != "") o = world->obj(str(s["obj"]));
		auto args = subArgs(s, "args");
		auto dirs = subArgs(s, "dirs");
		gs::SubscriptionFilterCallback fa = [&](gr::MapType::const_reference e) { auto i = args.find(e.first); return i != args.end() && i->second == e.second; };
		gs::SubscriptionFilterCallback fd = [&](gr::MapType::const_reference e) { auto i = dirs.find(e.first); return i != dirs.end() && i->second == e.second; };
		res = outcome([&] {
			auto& v = *c.svc;
			if (l == "sync")
			{
				if (form == "plain") v.deliver(field, o);
				else if (form == "args") v.deliver(field, args, o);
				else if (form == "argsdirs") v.deliver(field, args, dirs, o);
				else if (form == "filter") v.deliver(field, fa, o);
				else v.deliver(field, fa, fd, o);
			}
			else
			{
				auto la = launchOf(s);
				if (form == "plain") v.deliver(la, field, o);
				else if (form == "args") v.deliver(la, field, args, o);
				else if (form == "argsdirs") v.deliver(la, field, args, dirs, o);
				else if (form == "filter") v.deliver(la, field, fa, o);
				else v.deliver(la, field, fa, fd, o);
			}
			return std::string("\"r\":\"ok\"");
		});
	}
	else if (op == "forget") { c.docs.clear(); res = "\"r\":\"ok\""; }
	else res = "\"r\":\"badop\"";
	return "{\"op\":" + q(op) + "," + res + ",\"ev\":" + world->log.take() + "}";
}

} // namespace

std::string modeExec(const JV& line)
{
	if (sv(line["k"]) == "world")
	{
		world = std::make_unique<World>();
		if (has(line, "gen")) generated().at(str(line["gen"])).attach(*world);
		else world->buildSchema(line);
		if (has(line, "objs")) world->setObjects(line["objs"]);
		return "{}";
	}
	if (has(line, "objs")) world->setObjects(line["objs"]);
	Case c;
	if (world->service) c.svc = world->service(line["roots"]);
	else
	{
	gs::TypeMap ops;
	for (auto& r : line["roots"].GetArray())
		ops.emplace(sv(r["op"]), sv(r["o"]) == "" ? nullptr : std::static_pointer_cast<gs::Object>(world->obj(str(r["o"]))));
	if (has(line, "twice")) c.other = std::make_shared<Svc>(gs::TypeMap(ops), world->schema);
	if (has(line, "own")) c.make = [ops] { return std::make_shared<Svc>(gs::TypeMap(ops), world->schema); };
	c.svc = std::make_shared<Svc>(std::move(ops), world->schema);
	}
	std::vector<std::string> out;
	for (auto& s : line["steps"].GetArray()) out.push_back(step(c, s));
	return "{\"steps\":" + joinList(out) + "}";
}
