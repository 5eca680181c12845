// A programmable GraphQL service: schema, resolvers and object graph all come from JSON, every resolver call is logged.
#pragma once
#include "common.h"
#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/introspection/Introspection.h"
#include <chrono>
#include <condition_variable>
#include <future>
#include <memory>
#include <set>
#include <thread>

namespace gs = graphql::service;
namespace sch = graphql::schema;

struct TypeRef { std::string n; std::string mods; };   // mods: Q = nullable, L = list, outer to inner

struct ArgDef { std::string name; TypeRef type; };
struct FieldDef { std::string name; TypeRef type; std::vector<ArgDef> args; };

struct Log
{
	std::mutex m;
	std::vector<std::string> ev;
	void add(std::string e) { std::lock_guard l(m); ev.push_back(std::move(e)); }
	std::string take() { std::lock_guard l(m); auto r = joinList(ev); ev.clear(); return r; }
};

// Promises that wait for the schedule of the case to release them.
struct Gates
{
	std::mutex m;
	std::condition_variable cv;
	std::vector<std::string> order;
	std::map<std::string, std::function<void()>> waiting;
	bool stop = false;
	std::thread worker;
	void start(std::vector<std::string> o);
	void finish();
	void add(const std::string& path, std::function<void()> release);
};

struct World;

struct HState : gs::RequestState { std::string id; };

struct HObj : gs::Object
{
	HObj(World& w, std::string id, const JV& def, gs::TypeNames&& tn, gs::ResolverMap&& rm);
	void beginSelectionSet(const gs::SelectionSetParams& params) const override;
	void endSelectionSet(const gs::SelectionSetParams& params) const override;
	World& w;
	std::string id;
	const JV& def;
};

struct World
{
	rapidjson::Document sdoc;                       // the world line (owns every schema string)
	rapidjson::Document odoc;                       // the case line (owns the object graph)
	std::shared_ptr<sch::Schema> schema;
	std::map<std::string, std::map<std::string, FieldDef>> types;      // object and interface fields
	std::map<std::string, std::string> kinds;
	std::map<std::string, std::set<std::string>> typeNames;            // object type -> itself, interfaces, unions
	std::map<std::string, std::shared_ptr<gs::Object>> objs;
	const JV* objDefs = nullptr;
	Log log;
	Gates gates;
	bool withIntro = true;
	std::function<std::shared_ptr<gs::Object>(const std::string& id, const JV& def)> factory;   // objects of a generated service
	std::function<std::shared_ptr<gs::Request>(const JV& roots)> service;                      // a generated service
	std::mutex batchM;
	std::map<std::string, std::vector<std::function<void()>>> batches;   // results which become available at the end of a selection set
	void batch(const std::string& set, std::function<void()> f) { std::lock_guard l(batchM); batches[set].push_back(std::move(f)); }
	void flush(const std::string& set)
	{
		std::vector<std::function<void()>> fs;
		{ std::lock_guard l(batchM); auto i = batches.find(set); if (i == batches.end()) return; fs = std::move(i->second); batches.erase(i); }
		for (auto i = fs.rbegin(); i != fs.rend(); ++i) (*i)();
	}
	std::function<void()> onNotify;                 // runs inside the begin hook of a subscribe or unsubscribe notification

	void buildSchema(const JV& line);
	void setObjects(const JV& objs);
	std::shared_ptr<gs::Object> obj(const std::string& id);
	std::shared_ptr<HObj> makeObj(const std::string& id, const JV& def);
	~World();
};

std::string pathStr(const std::optional<gs::field_path>& p);
std::string typeKey(const JV& w);
std::string ctxName(gs::ResolverContext c);
std::string stateId(const gs::SelectionSetParams& p);
std::string whereText(const gs::SelectionSetParams& p);          // launch policy, and whether a requesting thread runs this
bool& requesting();                              // set on threads which made the request themselves
void logBegin(World& w, const std::string& id, const JV& def, const gs::SelectionSetParams& p);
void logEnd(World& w, const std::string& id, const JV& def, const gs::SelectionSetParams& p);
struct GenService { std::function<void(World&)> attach; };
std::map<std::string, GenService>& generated();     // the generated services linked into this program

// One behaviour of a field: how the value is produced and what it is.
[[noreturn]] void throwErr(const JV& err);
struct Beh
{
	World& w;
	const JV& j;
	std::string path, st;
	std::string how() const { return strOr(j, "how", "value"); }
	bool fails() const { return has(j, "err") && j["err"].Size() > 0; }
	const JV& val() const { return j["val"]; }
};

using ArgFn = std::string (*)(const std::string& name, const gr::Value& args);
using ConvFn = std::future<gs::ResolverResult> (*)(const Beh& b, gs::ResolverParams&& p);
struct Tables { std::map<std::string, ArgFn> arg; std::map<std::string, ConvFn> conv; };
std::map<std::string, Tables>& tables();            // by base: Int, Float, String, Boolean, ID, Scalar, Object, Derived
