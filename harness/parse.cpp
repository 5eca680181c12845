// Mode parse: parses a text and reports the tree as nodes {k, n, line, col, c}.
#include "common.h"
#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/internal/Grammar.h"
#include <fstream>
#include <unistd.h>
using namespace graphql;

namespace {
using N = peg::ast_node;
struct Bad : std::runtime_error { using runtime_error::runtime_error; };

std::string hexOf(std::string_view s)
{
	return hex(std::vector<uint8_t>(s.begin(), s.end()));
}
std::string text(std::string_view s) { return std::string(s); }
// a node; n is its name, or the bytes of a string in hexadecimal
std::string out(std::string_view k, std::string_view n, const N* at, const std::vector<std::string>& c)
{
	std::string line = "0", col = "0";
	if (at)
	{
		const auto p = at->begin();
		line = std::to_string(p.line); col = std::to_string(p.column);
	}
	return "{\"k\":" + q(k) + ",\"n\":" + q(n) + ",\"line\":" + q(line) + ",\"col\":" + q(col) + ",\"c\":" + joinList(c) + "}";
}
using L = std::vector<std::string>;

template <class T> bool is(const N& n) { return n.is_type<T>(); }
template <class T> const N* first(const N& n)
{
	for (const auto& c : n.children) if (c->is_type<T>()) return c.get();
	return nullptr;
}
template <class T> std::string name(const N& n)
{
	const N* c = first<T>(n);
	return c ? text(c->string_view()) : std::string();
}
L all(const N& n);
void add(L& l, L&& m) { for (auto& x : m) l.push_back(std::move(x)); }

std::string opKind(const N& n)
{
	const N* t = first<peg::operation_type>(n);
	return t ? t->string() : "query";
}

// The node itself, or its parts where it only groups them.
L node(const N& n)
{
	using namespace peg;
	const auto self = [&](std::string_view k, std::string_view nm, L c) { return L { out(k, nm, &n, c) }; };
	// parts that the caller names
	if (is<alias_name>(n)) return L { out("alias", text(n.string_view()), &n, {}) };
	if (is<field_name>(n) || is<argument_name>(n) || is<directive_name>(n) || is<object_field_name>(n) || is<operation_name>(n) || is<fragment_name>(n)
		|| is<scalar_name>(n) || is<object_name>(n) || is<interface_name>(n) || is<union_name>(n) || is<enum_name>(n) || is<operation_type>(n) || is<variable_name>(n))
		return {};
	if (is<arguments>(n) || is<directives>(n) || is<arguments_definition>(n) || is<fields_definition>(n) || is<input_fields_definition>(n)) return all(n);
	if (is<operation_definition>(n))
	{
		// the shorthand form has neither keyword nor name
		const bool shorthand = !first<operation_type>(n);
		return self(shorthand ? "short" : opKind(n), name<operation_name>(n), all(n));
	}
	if (is<fragment_definition>(n)) return self("fragment", name<fragment_name>(n), all(n));
	if (is<type_condition>(n)) return L { out("on", "", nullptr, all(n)) };
	if (is<selection_set>(n)) return L { out("sels", "", &n, all(n)) };
	if (is<field>(n)) return self("field", name<field_name>(n), all(n));
	if (is<fragment_spread>(n)) return L { out("spread", name<fragment_name>(n), nullptr, all(n)) };
	if (is<inline_fragment>(n)) return L { out("inline", "", nullptr, all(n)) };
	if (is<argument>(n)) return self("arg", name<argument_name>(n), all(n));
	if (is<directive>(n)) return self("dir", name<directive_name>(n), all(n));
	if (is<variable>(n))
	{
		// only documents parsed for execution keep the node of the name
		const N* v = first<variable_name>(n);
		return self("var", v ? text(v->string_view().substr(1)) : std::string("?"), all(n));
	}
	if (is<default_value>(n)) return L { out("default", "", &n, all(n)) };
	// types
	if (is<named_type>(n)) return self("named", text(n.string_view()), {});
	if (is<list_type>(n)) return self("listof", "", all(n));
	if (is<nonnull_type>(n)) return self("nonnull", "", all(n));
	// values
	if (is<variable_value>(n)) return self("varuse", text(n.string_view().substr(1)), {});
	if (is<integer_value>(n)) return self("int", text(n.string_view()), {});
	if (is<float_value>(n)) return self("float", text(n.string_view()), {});
	if (is<string_value>(n)) return self("string", hexOf(n.unescaped_view()), {});
	if (is<true_keyword>(n) || is<false_keyword>(n)) return self("bool", text(n.string_view()), {});
	if (is<null_keyword>(n)) return self("null", "", {});
	if (is<list_value>(n)) return self("list", "", all(n));
	if (is<object_value>(n)) return self("object", "", all(n));
	if (is<object_field>(n)) return self("member", name<object_field_name>(n), all(n));
	// type system
	if (is<description>(n)) return self("desc", hexOf(n.unescaped_view()), {});
	if (is<schema_definition>(n)) return self("schema", "", all(n));
	if (is<root_operation_definition>(n) || is<operation_type_definition>(n)) return L { out("root", text(opKind(n)), &n, all(n)) };
	if (is<scalar_type_definition>(n)) return self("scalar", name<scalar_name>(n), all(n));
	if (is<object_type_definition>(n)) return self("type", name<object_name>(n), all(n));
	if (is<interface_type_definition>(n)) return self("interface", name<interface_name>(n), all(n));
	if (is<union_type_definition>(n)) return self("union", name<union_name>(n), all(n));
	if (is<enum_type_definition>(n)) return self("enum", name<enum_name>(n), all(n));
	if (is<input_object_type_definition>(n)) return self("input", name<object_name>(n), all(n));
	if (is<directive_definition>(n)) return self("directive", name<directive_name>(n), all(n));
	if (is<interface_type>(n)) return self("implements", text(n.string_view()), {});
	if (is<union_type>(n)) return self("memberof", text(n.string_view()), {});
	if (is<field_definition>(n)) return self("fielddef", name<field_name>(n), all(n));
	if (is<input_field_definition>(n)) return self("inputdef", name<argument_name>(n), all(n));
	if (is<enum_value_definition>(n)) return self("value", name<enum_value>(n), [&] {
		L l;
		for (const auto& c : n.children) if (!is<enum_value>(*c)) add(l, node(*c));
		return l;
	}());
	if (is<enum_value>(n)) return self("enumv", text(n.string_view()), {});
	if (is<directive_location>(n)) return self("loc", text(n.string_view()), {});
	if (is<schema_extension>(n)) return self("xschema", "", all(n));
	if (is<scalar_type_extension>(n)) return self("xscalar", name<scalar_name>(n), all(n));
	if (is<object_type_extension>(n)) return self("xtype", name<object_name>(n), all(n));
	if (is<interface_type_extension>(n)) return self("xinterface", name<interface_name>(n), all(n));
	if (is<union_type_extension>(n)) return self("xunion", name<union_name>(n), all(n));
	if (is<enum_type_extension>(n)) return self("xenum", name<enum_name>(n), all(n));
	if (is<input_object_type_extension>(n)) return self("xinput", name<object_name>(n), all(n));
	return all(n);   // anything else only groups its parts
}

L all(const N& n)
{
	L l;
	for (const auto& c : n.children) add(l, node(*c));
	return l;
}

bool executable(const N& n) { return is<peg::operation_definition>(n) || is<peg::fragment_definition>(n); }

// Definitions of the other sort are reported by kind and place only.
std::string tree(const N& root, bool exec)
{
	L l;
	for (const auto& d : root.children)
	{
		auto x = node(*d);
		if (executable(*d) == exec) { add(l, std::move(x)); continue; }
		l.push_back(out("other", "", d.get(), {}));
	}
	return joinList(l);
}
}

std::string executableTree(const peg::ast& a) { return a.root ? tree(*a.root, true) : "[]"; }

std::string modeParse(const JV& line)
{
	const auto raw = unhex(sv(line["hex"]));
	const std::string src(raw.begin(), raw.end());
	const auto via = str(line["via"]);
	const bool exec = strOr(line, "kind", "exec") == "exec";
	std::string file;
	try
	{
		peg::ast a;
		if (via == "file")
		{
			file = "/tmp/gqlh-parse-" + std::to_string(getpid()) + ".graphql";
			std::ofstream(file, std::ios::binary) << src;
			a = exec ? peg::parseFile(file) : peg::parseSchemaFile(file);
		}
		else
		{
			// the text does not outlive the call
			const std::unique_ptr<std::string> copy { new std::string(src) };
			if (via == "udl") a = operator"" _graphql(src.data(), src.size());
			else a = exec ? peg::parseString(*copy) : peg::parseSchemaString(*copy);
		}
		if (!file.empty()) unlink(file.c_str());
		if (!a.root) return "{\"r\":\"empty\"}";
		return "{\"r\":\"tree\",\"tree\":" + tree(*a.root, exec) + "}";
	}
	catch (const peg::parse_error& e)
	{
		if (!file.empty()) unlink(file.c_str());
		return "{\"r\":\"error\",\"what\":" + q(e.what()) + "}";
	}
	catch (const std::exception& e)
	{
		if (!file.empty()) unlink(file.c_str());
		return "{\"r\":\"other\",\"what\":" + q(e.what()) + "}";
	}
}
