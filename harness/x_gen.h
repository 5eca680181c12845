// What the mock implementation of a generated service needs (the mocks themselves are written by lib/genmock.py).
#pragma once
#include "conv.h"

struct MapDump
{
	std::vector<std::string> k, l;
	void add(std::string_view n, std::string v) { k.push_back(q(n)); l.push_back(std::move(v)); }
	std::string done() const { return "{\"t\":\"Map\",\"v\":\"\",\"l\":" + joinList(l) + ",\"k\":" + joinList(k) + "}"; }
};

// A getter of a generated object: logs the call, then answers as the object graph says.
template <class R> gs::FieldResult<R> genCall(World& w, const std::string& id, const JV& def, const char* f, gs::FieldParams& p,
	std::vector<std::pair<const char*, std::string>> args)
{
	const auto path = pathStr(p.errorPath);
	std::vector<std::string> as;
	for (auto& a : args) as.push_back("{\"n\":" + q(a.first) + ",\"r\":{\"ok\":\"1\",\"v\":" + a.second + "}}");
	const auto dot = path.rfind('.');
	w.log.add("{\"e\":\"call\",\"p\":" + q(path) + ",\"o\":" + q(id) + ",\"f\":" + q(f) + ",\"rn\":" + q(dot == std::string::npos ? path : path.substr(dot + 1))
		+ ",\"ctx\":" + q(ctxName(p.resolverContext)) + ",\"st\":" + q(stateId(p)) + ",\"args\":" + joinList(as)
		+ ",\"od\":" + dump(p.operationDirectives) + ",\"fdd\":" + dump(p.fragmentDefinitionDirectives) + ",\"fsd\":"
		+ dump(p.fragmentSpreadDirectives) + ",\"ifd\":" + dump(p.inlineFragmentDirectives) + ",\"fd\":" + dump(p.fieldDirectives)
		+ whereText(p) + "}");
	struct Ret
	{
		World* w; std::string p, st;
		~Ret() { w->log.add("{\"e\":\"ret\",\"p\":" + q(p) + ",\"st\":" + q(st) + "}"); }
	} ret { &w, path, stateId(p) };
	const JV* j = &def["fields"][f];
	World* pw = &w;
	auto make = [j, pw]() -> R {
		if (has(*j, "err") && (*j)["err"].Size() > 0) throwErr((*j)["err"][0]);
		return Build<R>::from(*pw, (*j)["val"]);
	};
	const auto how = strOr(*j, "how", "value");
	if (how == "deferred") return gs::FieldResult<R>(std::async(std::launch::deferred, make));
	if (how == "async") return gs::FieldResult<R>(std::async(std::launch::async, make));
	return gs::FieldResult<R>(make());
}

#define GEN_HOOKS \
	void beginSelectionSet(const gs::SelectionSetParams& p) const override { logBegin(w, id, def, p); } \
	void endSelectionSet(const gs::SelectionSetParams& p) const override { logEnd(w, id, def, p); }
