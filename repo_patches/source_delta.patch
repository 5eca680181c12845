From 7a18226457ff08a111c1d1ef9dc73bcde173d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 01/57] fix: parse float literals which have both a fraction
 and an exponent

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 1e95e2d..5469a33 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -224,7 +224,7 @@ struct exponent_part : if_must<exponent_indicator, exponent_part_content>
 
 // http://spec.graphql.org/June2018/#FloatValue
 struct float_value
-	: seq<integer_part, sor<fractional_part, exponent_part, seq<fractional_part, exponent_part>>>
+	: seq<integer_part, sor<seq<fractional_part, exponent_part>, fractional_part, exponent_part>>
 {
 };
 
-- 
2.43.0


From 3bc203569de67d89a8acd01420b75b2a41363b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 02/57] fix: do not require ignored tokens between punctuators
 and other tokens

---
 include/graphqlservice/internal/Grammar.h | 31 ++++++++++++-----------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 5469a33..291547b 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -278,7 +278,7 @@ struct argument : if_must<argument_name, argument_content>
 };
 
 struct arguments_content
-	: seq<star<ignored>, list<argument, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<argument, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -290,7 +290,7 @@ struct arguments : if_must<one<'('>, arguments_content>
 struct list_entry;
 
 struct list_value_content
-	: seq<star<ignored>, opt<list<list_entry, plus<ignored>>>, star<ignored>, must<one<']'>>>
+	: seq<star<ignored>, opt<list<list_entry, star<ignored>>>, star<ignored>, must<one<']'>>>
 {
 };
 
@@ -313,7 +313,7 @@ struct object_field : if_must<object_field_name, object_field_content>
 };
 
 struct object_value_content
-	: seq<star<ignored>, opt<list<object_field, plus<ignored>>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, opt<list<object_field, star<ignored>>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -393,7 +393,7 @@ struct variable : if_must<variable_name, variable_content>
 };
 
 struct variable_definitions_content
-	: seq<star<ignored>, list<variable, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<variable, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -406,7 +406,7 @@ struct directive_name : name
 {
 };
 
-struct directive_content : seq<directive_name, opt<star<ignored>, arguments>>
+struct directive_content : seq<star<ignored>, directive_name, opt<star<ignored>, arguments>>
 {
 };
 
@@ -416,7 +416,7 @@ struct directive : if_must<one<'@'>, directive_content>
 };
 
 // http://spec.graphql.org/June2018/#Directives
-struct directives : list<directive, plus<ignored>>
+struct directives : list<directive, star<ignored>>
 {
 };
 
@@ -502,7 +502,7 @@ struct selection : sor<field, fragement_spread_or_inline_fragment>
 };
 
 struct selection_set_content
-	: seq<star<ignored>, list<selection, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<selection, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -558,7 +558,7 @@ struct root_operation_definition : if_must<operation_type, root_operation_defini
 
 struct schema_definition_content
 	: seq<opt<star<ignored>, directives>, star<ignored>, one<'{'>, star<ignored>,
-		  list<root_operation_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+		  list<root_operation_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -606,7 +606,7 @@ struct arguments_definition_start : one<'('>
 };
 
 struct arguments_definition_content
-	: seq<star<ignored>, list<input_field_definition, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<input_field_definition, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -631,7 +631,7 @@ struct field_definition : if_must<field_definition_start, field_definition_conte
 };
 
 struct fields_definition_content
-	: seq<star<ignored>, list<field_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<field_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -806,7 +806,7 @@ struct enum_values_definition_start : one<'{'>
 };
 
 struct enum_values_definition_content
-	: seq<star<ignored>, list<enum_value_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<enum_value_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -882,7 +882,7 @@ struct input_fields_definition_start : one<'{'>
 };
 
 struct input_fields_definition_content
-	: seq<star<ignored>, list<input_field_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<input_field_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -966,8 +966,9 @@ struct directive_definition_start
 };
 
 struct directive_definition_content
-	: seq<star<ignored>, one<'@'>, directive_name, opt<star<ignored>, arguments_definition>,
-		  plus<ignored>, on_keyword, plus<ignored>, directive_locations>
+	: seq<star<ignored>, one<'@'>, star<ignored>, directive_name,
+		  opt<star<ignored>, arguments_definition>, star<ignored>, on_keyword, star<ignored>,
+		  directive_locations>
 {
 };
 
@@ -995,7 +996,7 @@ struct schema_extension_start : seq<extend_keyword, plus<ignored>, schema_keywor
 };
 
 struct schema_extension_operation_type_definitions
-	: seq<one<'{'>, star<ignored>, list<operation_type_definition, plus<ignored>>, star<ignored>,
+	: seq<one<'{'>, star<ignored>, list<operation_type_definition, star<ignored>>, star<ignored>,
 		  must<one<'}'>>>
 {
 };
-- 
2.43.0


From 3129d4b61c7cc448d10281f7fa347a485b5f77c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 03/57] fix: reject true, false, and null as enum value names

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 291547b..918f039 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -242,7 +242,7 @@ struct bool_value : sor<true_keyword, false_keyword>
 };
 
 // http://spec.graphql.org/June2018/#EnumValue
-struct enum_value : seq<not_at<true_keyword, false_keyword, null_keyword>, name>
+struct enum_value : seq<not_at<sor<true_keyword, false_keyword, null_keyword>>, name>
 {
 };
 
-- 
2.43.0


From 8b77a83836aa4be588e67269bbd3c90c06639c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 04/57] fix: allow directives and operation types in the same
 schema extension

---
 include/graphqlservice/internal/Grammar.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 918f039..5a3f0d5 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -1003,7 +1003,8 @@ struct schema_extension_operation_type_definitions
 
 struct schema_extension_content
 	: seq<star<ignored>,
-		  sor<seq<opt<directives>, schema_extension_operation_type_definitions>, directives>>
+		  sor<seq<opt<directives, star<ignored>>, schema_extension_operation_type_definitions>,
+			  directives>>
 {
 };
 
-- 
2.43.0


From 86d2bd7edd1d2b960daf56a531f653df365fbde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 05/57] fix: match the source text rules for ignored tokens,
 comments, and strings

---
 include/graphqlservice/internal/Grammar.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 5a3f0d5..48db31a 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -65,12 +65,12 @@ struct source_character : sor<one<0x0009, 0x000A, 0x000D>, utf8::range<0x0020, 0
 };
 
 // http://spec.graphql.org/June2018/#sec-Comments
-struct comment : seq<one<'#'>, until<eolf>>
+struct comment : seq<one<'#'>, star<not_at<one<'\n', '\r'>>, source_character>>
 {
 };
 
 // http://spec.graphql.org/June2018/#sec-Source-Text.Ignored-Tokens
-struct ignored : sor<space, one<','>, comment>
+struct ignored : sor<one<'\t', '\n', '\r', ' ', ','>, utf8::bom, comment>
 {
 };
 
@@ -128,7 +128,8 @@ struct string_escape_sequence : if_must<backslash_token, string_escape_sequence_
 };
 
 struct string_quote_character
-	: plus<not_at<backslash_token>, not_at<quote_token>, not_at<ascii::eol>, source_character>
+	: plus<not_at<backslash_token>, not_at<quote_token>, not_at<one<'\n', '\r'>>,
+		   source_character>
 {
 };
 
-- 
2.43.0


From 62f32442ae7b092ab65edfc46618b978025c2f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 06/57] fix: unescape each segment of a string literal

---
 src/SyntaxTree.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index b323f54..9b87205 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -55,12 +55,12 @@ std::string_view ast_node::unescaped_view() const
 				children.cend(),
 				size_t(0),
 				[](size_t total, const std::unique_ptr<ast_node>& child) {
-					return total + child->string_view().size();
+					return total + child->unescaped_view().size();
 				}));
 
 			for (const auto& child : children)
 			{
-				joined.append(child->string_view());
+				joined.append(child->unescaped_view());
 			}
 
 			const_cast<ast_node*>(this)->_unescaped =
@@ -69,7 +69,7 @@ std::string_view ast_node::unescaped_view() const
 		else if (!children.empty())
 		{
 			const_cast<ast_node*>(this)->_unescaped =
-				std::make_unique<unescaped_t>(children.front()->string_view());
+				std::make_unique<unescaped_t>(children.front()->unescaped_view());
 		}
 		else if (has_content() && is_type<escaped_unicode>())
 		{
-- 
2.43.0


From 4fd079b7e9e7db64d120095d3cfdb3d81ff3e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 07/57] fix: report unpaired surrogates in escape sequences
 from the parser

---
 src/SyntaxTree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index 9b87205..a555a63 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -152,6 +152,11 @@ struct ast_selector<float_value> : std::true_type
 template <>
 struct ast_selector<escaped_unicode> : std::true_type
 {
+	static void transform(std::unique_ptr<ast_node>& n)
+	{
+		// Decode it now, so an unpaired surrogate fails to parse.
+		static_cast<void>(n->unescaped_view());
+	}
 };
 
 template <>
-- 
2.43.0


From c0d12316261f40be40eda57d2d329281c9cf0d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 08/57] fix: ignore skipped fields when merging fields with the
 same response name

---
 src/GraphQLService.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index e1c409a..427ba2d 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -852,6 +852,17 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		alias = name;
 	}
 
+	DirectiveVisitor directiveVisitor(_variables);
+
+	peg::on_first_child<peg::directives>(field, [&directiveVisitor](const peg::ast_node& child) {
+		directiveVisitor.visit(child);
+	});
+
+	if (directiveVisitor.shouldSkip())
+	{
+		return;
+	}
+
 	if (!_names.emplace(alias).second)
 	{
 		// Skip resolving fields which map to the same response name as a field we've already
@@ -879,17 +890,6 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		return;
 	}
 
-	DirectiveVisitor directiveVisitor(_variables);
-
-	peg::on_first_child<peg::directives>(field, [&directiveVisitor](const peg::ast_node& child) {
-		directiveVisitor.visit(child);
-	});
-
-	if (directiveVisitor.shouldSkip())
-	{
-		return;
-	}
-
 	response::Value arguments(response::Type::Map);
 
 	peg::on_first_child<peg::arguments>(field, [this, &arguments](const peg::ast_node& child) {
-- 
2.43.0


From e3cc840906481cd3d352f61e8684cb6c8cb1fb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 09/57] fix: evaluate both @skip and @include on the same
 selection

---
 src/GraphQLService.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 427ba2d..43446a4 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -453,11 +453,17 @@ bool DirectiveVisitor::shouldSkip() const
 
 		if (argumentTrue)
 		{
-			return skip;
+			if (skip)
+			{
+				return true;
+			}
 		}
 		else if (argumentFalse)
 		{
-			return !skip;
+			if (!skip)
+			{
+				return true;
+			}
 		}
 		else
 		{
-- 
2.43.0


From 193be63fdbb91a335d2927ec09651bcd0611bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 10/57] fix: finish each mutation field before calling the next
 resolver

---
 src/GraphQLService.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 43446a4..0cd5310 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -937,6 +937,12 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 			_fragments,
 			_variables));
 
+		if (_resolverContext == ResolverContext::Mutation && !_path)
+		{
+			// http://spec.graphql.org/June2018/#sec-Normal-and-Serial-Execution
+			result.wait();
+		}
+
 		_values.push_back({ alias, std::move(result) });
 	}
 	catch (schema_exception& scx)
-- 
2.43.0


From c5e9a6287dedf6208a2e3523174a0097c990e7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 11/57] fix: keep a null entry for list elements which fail to
 resolve

---
 include/graphqlservice/GraphQLService.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 285686e..b4beceb 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -693,6 +693,8 @@ struct ModifiedResult
 						{
 							document.errors.splice(document.errors.end(), errors);
 						}
+
+						document.data.emplace_back(response::Value());
 					}
 					catch (const std::exception& ex)
 					{
@@ -704,6 +706,7 @@ struct ModifiedResult
 						document.errors.emplace_back(schema_error { message.str(),
 							wrappedParams.getLocation(),
 							buildErrorPath(wrappedParams.errorPath) });
+						document.data.emplace_back(response::Value());
 					}
 
 					++std::get<size_t>(wrappedParams.errorPath->segment);
-- 
2.43.0


From d44f6269bc77672fe1c0ab0421ea66947a76403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 12/57] fix: report the location and path of errors from
 futures

---
 include/graphqlservice/GraphQLService.h |  8 +++
 src/GraphQLService.cpp                  | 79 ++++++++++++++++---------
 2 files changed, 60 insertions(+), 27 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index b4beceb..c320414 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -80,6 +80,10 @@ struct schema_error
 
 GRAPHQLSERVICE_EXPORT response::Value buildErrorValues(std::list<schema_error>&& structuredErrors);
 
+// Fill in the location and path of the field for any errors which did not specify them.
+GRAPHQLSERVICE_EXPORT void addFieldPosition(std::list<schema_error>& structuredErrors,
+	const schema_location& location, const std::optional<field_path>& path);
+
 // This exception bubbles up 1 or more error messages to the JSON results.
 class schema_exception : public std::exception
 {
@@ -691,6 +695,9 @@ struct ModifiedResult
 
 						if (!errors.empty())
 						{
+							addFieldPosition(errors,
+								wrappedParams.getLocation(),
+								wrappedParams.errorPath);
 							document.errors.splice(document.errors.end(), errors);
 						}
 
@@ -743,6 +750,7 @@ private:
 
 				if (!errors.empty())
 				{
+					addFieldPosition(errors, paramsFuture.getLocation(), paramsFuture.errorPath);
 					document.errors.splice(document.errors.end(), errors);
 				}
 			}
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 0cd5310..ebcac32 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -115,6 +115,23 @@ response::Value buildErrorValues(std::list<schema_error>&& structuredErrors)
 	return errors;
 }
 
+void addFieldPosition(std::list<schema_error>& structuredErrors, const schema_location& location,
+	const std::optional<field_path>& path)
+{
+	for (auto& error : structuredErrors)
+	{
+		if (error.location.line == 0)
+		{
+			error.location = location;
+		}
+
+		if (error.path.empty())
+		{
+			error.path = buildErrorPath(path);
+		}
+	}
+}
+
 schema_exception::schema_exception(std::list<schema_error>&& structuredErrors)
 	: _structuredErrors(std::move(structuredErrors))
 {
@@ -760,6 +777,14 @@ struct FragmentDirectives
 	response::Value inlineFragmentDirectives;
 };
 
+// Each value keeps the location of the field for reporting errors.
+struct SelectionValue
+{
+	std::string_view name;
+	schema_location location;
+	std::future<ResolverResult> result;
+};
+
 // SelectionVisitor visits the AST and resolves a field or fragment, unless it's skipped by
 // a directive or type condition.
 class SelectionVisitor
@@ -771,7 +796,7 @@ public:
 
 	void visit(const peg::ast_node& selection);
 
-	std::vector<std::pair<std::string_view, std::future<ResolverResult>>> getValues();
+	std::vector<SelectionValue> getValues();
 
 private:
 	void visitField(const peg::ast_node& field);
@@ -790,7 +815,7 @@ private:
 
 	std::list<FragmentDirectives> _fragmentDirectives;
 	internal::string_view_set _names;
-	std::vector<std::pair<std::string_view, std::future<ResolverResult>>> _values;
+	std::vector<SelectionValue> _values;
 };
 
 SelectionVisitor::SelectionVisitor(const SelectionSetParams& selectionSetParams,
@@ -816,7 +841,7 @@ SelectionVisitor::SelectionVisitor(const SelectionSetParams& selectionSetParams,
 	_values.reserve(count);
 }
 
-std::vector<std::pair<std::string_view, std::future<ResolverResult>>> SelectionVisitor::getValues()
+std::vector<SelectionValue> SelectionVisitor::getValues()
 {
 	auto values = std::move(_values);
 
@@ -892,7 +917,7 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 				{ position.line, position.column },
 				buildErrorPath(_path ? std::make_optional(_path->get()) : std::nullopt) } } }));
 
-		_values.push_back({ alias, promise.get_future() });
+		_values.push_back({ alias, { position.line, position.column }, promise.get_future() });
 		return;
 	}
 
@@ -943,7 +968,9 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 			result.wait();
 		}
 
-		_values.push_back({ alias, std::move(result) });
+		const auto position = field.begin();
+
+		_values.push_back({ alias, { position.line, position.column }, std::move(result) });
 	}
 	catch (schema_exception& scx)
 	{
@@ -951,22 +978,12 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		auto position = field.begin();
 		auto messages = scx.getStructuredErrors();
 
-		for (auto& message : messages)
-		{
-			if (message.location.line == 0)
-			{
-				message.location = { position.line, position.column };
-			}
-
-			if (message.path.empty())
-			{
-				message.path = buildErrorPath(selectionSetParams.errorPath);
-			}
-		}
-
+		addFieldPosition(messages,
+			{ position.line, position.column },
+			selectionSetParams.errorPath);
 		promise.set_exception(std::make_exception_ptr(schema_exception { std::move(messages) }));
 
-		_values.push_back({ alias, promise.get_future() });
+		_values.push_back({ alias, { position.line, position.column }, promise.get_future() });
 	}
 	catch (const std::exception& ex)
 	{
@@ -981,7 +998,7 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 				{ position.line, position.column },
 				buildErrorPath(selectionSetParams.errorPath) } } }));
 
-		_values.push_back({ alias, promise.get_future() });
+		_values.push_back({ alias, { position.line, position.column }, promise.get_future() });
 	}
 }
 
@@ -1154,18 +1171,18 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 	return std::async(
 		selectionSetParams.launch,
-		[](std::vector<std::pair<std::string_view, std::future<ResolverResult>>>&& children) {
+		[parentPath = selectionSetParams.errorPath](std::vector<SelectionValue>&& children) {
 			ResolverResult document { response::Value { response::Type::Map } };
 
 			document.data.reserve(children.size());
 
 			for (auto& child : children)
 			{
-				auto name = child.first;
+				auto name = child.name;
 
 				try
 				{
-					auto value = child.second.get();
+					auto value = child.result.get();
 
 					if (!document.data.emplace_back(std::string { name }, std::move(value.data)))
 					{
@@ -1187,9 +1204,13 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 					if (!errors.empty())
 					{
-						std::copy(errors.begin(),
-							errors.end(),
-							std::back_inserter(document.errors));
+						addFieldPosition(errors,
+							child.location,
+							std::make_optional(field_path {
+								parentPath ? std::make_optional(std::cref(*parentPath))
+										   : std::nullopt,
+								path_segment { name } }));
+						document.errors.splice(document.errors.end(), errors);
 					}
 
 					document.data.emplace_back(std::string { name }, {});
@@ -1200,7 +1221,11 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 					message << "Field error name: " << name << " unknown error: " << ex.what();
 
-					document.errors.push_back({ message.str() });
+					document.errors.push_back({ message.str(),
+						child.location,
+						buildErrorPath(std::make_optional(field_path {
+							parentPath ? std::make_optional(std::cref(*parentPath)) : std::nullopt,
+							path_segment { name } })) });
 					document.data.emplace_back(std::string { name }, {});
 				}
 			}
-- 
2.43.0


From 4c7a95945a8aa37702a12491e90445e4f052e91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 13/57] fix: subscribe to root fields which are selected by
 fragments

---
 src/GraphQLService.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index ebcac32..a27a431 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1439,6 +1439,7 @@ public:
 	void visit(const peg::ast_node& operationDefinition);
 
 private:
+	void visitSelection(const peg::ast_node& selection);
 	void visitField(const peg::ast_node& field);
 	void visitFragmentSpread(const peg::ast_node& fragmentSpread);
 	void visitInlineFragment(const peg::ast_node& inlineFragment);
@@ -1483,18 +1484,7 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 
 	for (const auto& child : selection.children)
 	{
-		if (child->is_type<peg::field>())
-		{
-			visitField(*child);
-		}
-		else if (child->is_type<peg::fragment_spread>())
-		{
-			visitFragmentSpread(*child);
-		}
-		else if (child->is_type<peg::inline_fragment>())
-		{
-			visitInlineFragment(*child);
-		}
+		visitSelection(*child);
 	}
 
 	response::Value directives(response::Type::Map);
@@ -1521,6 +1511,22 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 			selection);
 }
 
+void SubscriptionDefinitionVisitor::visitSelection(const peg::ast_node& selection)
+{
+	if (selection.is_type<peg::field>())
+	{
+		visitField(selection);
+	}
+	else if (selection.is_type<peg::fragment_spread>())
+	{
+		visitFragmentSpread(selection);
+	}
+	else if (selection.is_type<peg::inline_fragment>())
+	{
+		visitInlineFragment(selection);
+	}
+}
+
 void SubscriptionDefinitionVisitor::visitField(const peg::ast_node& field)
 {
 	std::string_view name;
@@ -1609,7 +1615,7 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 
 	for (const auto& selection : itr->second.getSelection().children)
 	{
-		visit(*selection);
+		visitSelection(*selection);
 	}
 }
 
@@ -1640,7 +1646,7 @@ void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inl
 		peg::on_first_child<peg::selection_set>(inlineFragment, [this](const peg::ast_node& child) {
 			for (const auto& selection : child.children)
 			{
-				visit(*selection);
+				visitSelection(*selection);
 			}
 		});
 	}
-- 
2.43.0


From 5fcfe289d8da3e752a386a7cd3975abf97db6699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 14/57] fix: subscribe to the selected operation in documents
 with several operations

---
 src/GraphQLService.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index a27a431..86d0896 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1433,7 +1433,6 @@ public:
 	SubscriptionDefinitionVisitor(SubscriptionParams&& params, SubscriptionCallback&& callback,
 		FragmentMap&& fragments, const std::shared_ptr<Object>& subscriptionObject);
 
-	const peg::ast_node& getRoot() const;
 	std::shared_ptr<SubscriptionData> getRegistration();
 
 	void visit(const peg::ast_node& operationDefinition);
@@ -1464,11 +1463,6 @@ SubscriptionDefinitionVisitor::SubscriptionDefinitionVisitor(SubscriptionParams&
 {
 }
 
-const peg::ast_node& SubscriptionDefinitionVisitor::getRoot() const
-{
-	return *_params.query.root;
-}
-
 std::shared_ptr<SubscriptionData> SubscriptionDefinitionVisitor::getRegistration()
 {
 	auto result = std::move(_result);
@@ -2027,10 +2021,7 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		std::move(fragments),
 		itr->second);
 
-	peg::for_each_child<peg::operation_definition>(subscriptionVisitor.getRoot(),
-		[&subscriptionVisitor](const peg::ast_node& child) {
-			subscriptionVisitor.visit(child);
-		});
+	subscriptionVisitor.visit(*operationDefinition.second);
 
 	auto registration = subscriptionVisitor.getRegistration();
 	auto key = _nextKey++;
-- 
2.43.0


From 2e349f3ae945a6e8b287d899cc06afcd1b19ca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 15/57] fix: rethrow the original exception when a subscription
 resolver throws

---
 src/GraphQLService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 86d0896..41c148f 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2067,11 +2067,11 @@ std::future<SubscriptionKey> Request::subscribe(
 							registration->data->variables)
 						.get();
 				}
-				catch (const std::exception& ex)
+				catch (const std::exception&)
 				{
 					// Rethrow the exception, but don't leave it subscribed if the resolver failed.
 					spThis->unsubscribe(key);
-					throw ex;
+					throw;
 				}
 			}
 
-- 
2.43.0


From 835152314ded20fc8c0e460eee0494497a4210d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 16/57] fix: use the variables of the operation in
 subscriptions and fragment directives

---
 src/GraphQLService.cpp | 132 ++++++++++++++++++++++-------------------
 1 file changed, 72 insertions(+), 60 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 41c148f..5619074 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1257,6 +1257,47 @@ OperationData::OperationData(std::shared_ptr<RequestState>&& state, response::Va
 {
 }
 
+// Filter the variables down to the ones which are defined by this operation, and fill in the default
+// values for any which were not specified.
+response::Value buildOperationVariables(
+	const peg::ast_node& operationDefinition, const response::Value& variables)
+{
+	response::Value operationVariables(response::Type::Map);
+
+	peg::for_each_child<peg::variable>(operationDefinition,
+		[&variables, &operationVariables](const peg::ast_node& variable) {
+			std::string variableName;
+
+			peg::on_first_child<peg::variable_name>(variable,
+				[&variableName](const peg::ast_node& name) {
+					// Skip the $ prefix
+					variableName = name.string_view().substr(1);
+				});
+
+			auto itrVar = variables.find(variableName);
+			response::Value valueVar;
+
+			if (itrVar != variables.get<response::MapType>().cend())
+			{
+				valueVar = response::Value(itrVar->second);
+			}
+			else
+			{
+				peg::on_first_child<peg::default_value>(variable,
+					[&variables, &valueVar](const peg::ast_node& defaultValue) {
+						ValueVisitor visitor(variables);
+
+						visitor.visit(*defaultValue.children.front());
+						valueVar = visitor.getValue();
+					});
+			}
+
+			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
+		});
+
+	return operationVariables;
+}
+
 // FragmentDefinitionVisitor visits the AST and collects all of the fragment
 // definitions in the document.
 class FragmentDefinitionVisitor
@@ -1349,42 +1390,6 @@ void OperationDefinitionVisitor::visit(
 {
 	auto itr = _operations.find(operationType);
 
-	// Filter the variable definitions down to the ones referenced in this operation
-	response::Value operationVariables(response::Type::Map);
-
-	peg::for_each_child<peg::variable>(operationDefinition,
-		[this, &operationVariables](const peg::ast_node& variable) {
-			std::string variableName;
-
-			peg::on_first_child<peg::variable_name>(variable,
-				[&variableName](const peg::ast_node& name) {
-					// Skip the $ prefix
-					variableName = name.string_view().substr(1);
-				});
-
-			auto itrVar = _params->variables.find(variableName);
-			response::Value valueVar;
-
-			if (itrVar != _params->variables.get<response::MapType>().cend())
-			{
-				valueVar = response::Value(itrVar->second);
-			}
-			else
-			{
-				peg::on_first_child<peg::default_value>(variable,
-					[this, &valueVar](const peg::ast_node& defaultValue) {
-						ValueVisitor visitor(_params->variables);
-
-						visitor.visit(*defaultValue.children.front());
-						valueVar = visitor.getValue();
-					});
-			}
-
-			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
-		});
-
-	_params->variables = std::move(operationVariables);
-
 	response::Value operationDirectives(response::Type::Map);
 
 	peg::on_first_child<peg::directives>(operationDefinition,
@@ -1726,14 +1731,6 @@ std::future<response::Value> Request::resolve(std::launch launch,
 {
 	try
 	{
-		FragmentDefinitionVisitor fragmentVisitor(variables);
-
-		peg::for_each_child<peg::fragment_definition>(*query.root,
-			[&fragmentVisitor](const peg::ast_node& child) {
-				fragmentVisitor.visit(child);
-			});
-
-		auto fragments = fragmentVisitor.getFragments();
 		auto operationDefinition = findOperationDefinition(query, operationName);
 
 		if (!operationDefinition.second)
@@ -1766,6 +1763,16 @@ std::future<response::Value> Request::resolve(std::launch launch,
 			};
 		}
 
+		variables = buildOperationVariables(*operationDefinition.second, variables);
+
+		FragmentDefinitionVisitor fragmentVisitor(variables);
+
+		peg::for_each_child<peg::fragment_definition>(*query.root,
+			[&fragmentVisitor](const peg::ast_node& child) {
+				fragmentVisitor.visit(child);
+			});
+
+		auto fragments = fragmentVisitor.getFragments();
 		const bool isMutation = (operationDefinition.first == strMutation);
 		const auto resolverContext =
 			isMutation ? ResolverContext::Mutation : ResolverContext::Query;
@@ -1874,14 +1881,6 @@ std::future<response::Value> Request::resolveUnvalidated(std::launch launch,
 {
 	try
 	{
-		FragmentDefinitionVisitor fragmentVisitor(variables);
-
-		peg::for_each_child<peg::fragment_definition>(root,
-			[&fragmentVisitor](const peg::ast_node& child) {
-				fragmentVisitor.visit(child);
-			});
-
-		auto fragments = fragmentVisitor.getFragments();
 		auto operationDefinition = findUnvalidatedOperationDefinition(root, operationName);
 
 		if (!operationDefinition.second)
@@ -1914,6 +1913,16 @@ std::future<response::Value> Request::resolveUnvalidated(std::launch launch,
 			};
 		}
 
+		variables = buildOperationVariables(*operationDefinition.second, variables);
+
+		FragmentDefinitionVisitor fragmentVisitor(variables);
+
+		peg::for_each_child<peg::fragment_definition>(root,
+			[&fragmentVisitor](const peg::ast_node& child) {
+				fragmentVisitor.visit(child);
+			});
+
+		auto fragments = fragmentVisitor.getFragments();
 		const bool isMutation = (operationDefinition.first == strMutation);
 
 		// http://spec.graphql.org/June2018/#sec-Normal-and-Serial-Execution
@@ -1975,14 +1984,6 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		throw schema_exception { std::move(errors) };
 	}
 
-	FragmentDefinitionVisitor fragmentVisitor(params.variables);
-
-	peg::for_each_child<peg::fragment_definition>(*params.query.root,
-		[&fragmentVisitor](const peg::ast_node& child) {
-			fragmentVisitor.visit(child);
-		});
-
-	auto fragments = fragmentVisitor.getFragments();
 	auto operationDefinition = findOperationDefinition(params.query, params.operationName);
 
 	if (!operationDefinition.second)
@@ -2015,6 +2016,17 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		};
 	}
 
+	params.variables = buildOperationVariables(*operationDefinition.second, params.variables);
+
+	FragmentDefinitionVisitor fragmentVisitor(params.variables);
+
+	peg::for_each_child<peg::fragment_definition>(*params.query.root,
+		[&fragmentVisitor](const peg::ast_node& child) {
+			fragmentVisitor.visit(child);
+		});
+
+	auto fragments = fragmentVisitor.getFragments();
+
 	auto itr = _operations.find(strSubscription);
 	SubscriptionDefinitionVisitor subscriptionVisitor(std::move(params),
 		std::move(callback),
-- 
2.43.0


From 67cc6ab9bcf989567f0dff203364e54868600248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 17/57] fix: ignore unknown keys in the asynchronous
 unsubscribe

---
 src/GraphQLService.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 5619074..d67d5dd 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2127,11 +2127,13 @@ std::future<void> Request::unsubscribe(std::launch launch, SubscriptionKey key)
 {
 	return std::async(launch, [spThis = shared_from_this(), launch, key]() {
 		const auto itrOperation = spThis->_operations.find(strSubscription);
+		const auto itrSubscription = spThis->_subscriptions.find(key);
 
-		if (itrOperation != spThis->_operations.end())
+		if (itrOperation != spThis->_operations.end()
+			&& itrSubscription != spThis->_subscriptions.end())
 		{
 			const auto& operation = itrOperation->second;
-			const auto& registration = spThis->_subscriptions.at(key);
+			const auto& registration = itrSubscription->second;
 			response::Value emptyFragmentDirectives(response::Type::Map);
 			const SelectionSetParams selectionSetParams {
 				ResolverContext::NotifyUnsubscribe,
-- 
2.43.0


From cd3f9a850311318aa0fb9733733d12173e571e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 18/57] fix: support subscriptions without a default
 subscription object

---
 src/GraphQLService.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index d67d5dd..a51c477 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1594,7 +1594,7 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 		};
 	}
 
-	bool skip = !_subscriptionObject->matchesType(itr->second.getType());
+	bool skip = _subscriptionObject && !_subscriptionObject->matchesType(itr->second.getType());
 	DirectiveVisitor directiveVisitor(_params.variables);
 
 	if (!skip)
@@ -1639,7 +1639,7 @@ void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inl
 			typeCondition = &child;
 		});
 
-	if (typeCondition == nullptr
+	if (typeCondition == nullptr || !_subscriptionObject
 		|| _subscriptionObject->matchesType(typeCondition->children.front()->string()))
 	{
 		peg::on_first_child<peg::selection_set>(inlineFragment, [this](const peg::ast_node& child) {
@@ -2054,10 +2054,11 @@ std::future<SubscriptionKey> Request::subscribe(
 			const auto key = spThis->subscribe(std::move(paramsFuture), std::move(callbackFuture));
 			const auto itrOperation = spThis->_operations.find(strSubscription);
 
-			if (itrOperation != spThis->_operations.end())
+			// There may be an empty entry in the operations map, so there's nothing to notify.
+			if (itrOperation != spThis->_operations.end() && itrOperation->second)
 			{
 				const auto& operation = itrOperation->second;
-				const auto& registration = spThis->_subscriptions.at(key);
+				const auto registration = spThis->_subscriptions.at(key);
 				response::Value emptyFragmentDirectives(response::Type::Map);
 				const SelectionSetParams selectionSetParams {
 					ResolverContext::NotifySubscribe,
@@ -2129,11 +2130,12 @@ std::future<void> Request::unsubscribe(std::launch launch, SubscriptionKey key)
 		const auto itrOperation = spThis->_operations.find(strSubscription);
 		const auto itrSubscription = spThis->_subscriptions.find(key);
 
-		if (itrOperation != spThis->_operations.end()
+		// There may be an empty entry in the operations map, so there's nothing to notify.
+		if (itrOperation != spThis->_operations.end() && itrOperation->second
 			&& itrSubscription != spThis->_subscriptions.end())
 		{
 			const auto& operation = itrOperation->second;
-			const auto& registration = itrSubscription->second;
+			const auto registration = itrSubscription->second;
 			response::Value emptyFragmentDirectives(response::Type::Map);
 			const SelectionSetParams selectionSetParams {
 				ResolverContext::NotifyUnsubscribe,
-- 
2.43.0


From 35772e82baef62d6a09a1a688c7f3efcef1e7d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 19/57] fix: reset the validation state after unsupported
 operation types

---
 src/Validation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 23e4731..fae3f9c 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -769,6 +769,10 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 		error << "Unsupported operation type: " << operationType;
 
 		_errors.push_back({ error.str(), { position.line, position.column } });
+
+		_operationVariables.reset();
+		_variableDefinitions.clear();
+		_referencedVariables.clear();
 		return;
 	}
 
-- 
2.43.0


From 856f6a62cce5d9f190c2c9f9f6dd69e686558e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 20/57] fix: validate required arguments on directives without
 any arguments

---
 src/Validation.cpp | 111 +++++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 55 deletions(-)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index fae3f9c..8c9f54f 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -2014,12 +2014,13 @@ void ValidateExecutableVisitor::visitDirectives(
 			continue;
 		}
 
-		peg::on_first_child<peg::arguments>(*directive,
-			[this, &directive, &directiveName, itrDirective](const peg::ast_node& child) {
-				ValidateFieldArguments validateArguments;
-				internal::string_view_map<schema_location> argumentLocations;
-				std::list<std::string_view> argumentNames;
+		ValidateFieldArguments validateArguments;
+		internal::string_view_map<schema_location> argumentLocations;
+		std::list<std::string_view> argumentNames;
 
+		peg::on_first_child<peg::arguments>(*directive,
+			[this, &directiveName, &validateArguments, &argumentLocations, &argumentNames](
+				const peg::ast_node& child) {
 				for (auto& argument : child.children)
 				{
 					auto position = argument->begin();
@@ -2044,68 +2045,68 @@ void ValidateExecutableVisitor::visitDirectives(
 					argumentLocations[argumentName] = { position.line, position.column };
 					argumentNames.push_back(argumentName);
 				}
+			});
 
-				for (auto argumentName : argumentNames)
-				{
-					auto itrArgument = itrDirective->second.arguments.find(argumentName);
+		for (auto argumentName : argumentNames)
+		{
+			auto itrArgument = itrDirective->second.arguments.find(argumentName);
 
-					if (itrArgument == itrDirective->second.arguments.end())
-					{
-						// http://spec.graphql.org/June2018/#sec-Argument-Names
-						std::ostringstream message;
+			if (itrArgument == itrDirective->second.arguments.end())
+			{
+				// http://spec.graphql.org/June2018/#sec-Argument-Names
+				std::ostringstream message;
 
-						message << "Undefined argument directive: " << directiveName
-								<< " name: " << argumentName;
+				message << "Undefined argument directive: " << directiveName
+						<< " name: " << argumentName;
 
-						_errors.push_back({ message.str(), argumentLocations[argumentName] });
-					}
-				}
+				_errors.push_back({ message.str(), argumentLocations[argumentName] });
+			}
+		}
 
-				for (auto& argument : itrDirective->second.arguments)
-				{
-					auto itrArgument = validateArguments.find(argument.first);
-					const bool missing = itrArgument == validateArguments.end();
+		for (auto& argument : itrDirective->second.arguments)
+		{
+			auto itrArgument = validateArguments.find(argument.first);
+			const bool missing = itrArgument == validateArguments.end();
 
-					if (!missing && itrArgument->second.value)
-					{
-						// The value was not null.
-						if (!validateInputValue(argument.second.nonNullDefaultValue,
-								itrArgument->second,
-								argument.second.type))
-						{
-							// http://spec.graphql.org/June2018/#sec-Values-of-Correct-Type
-							std::ostringstream message;
+			if (!missing && itrArgument->second.value)
+			{
+				// The value was not null.
+				if (!validateInputValue(argument.second.nonNullDefaultValue,
+						itrArgument->second,
+						argument.second.type))
+				{
+					// http://spec.graphql.org/June2018/#sec-Values-of-Correct-Type
+					std::ostringstream message;
 
-							message << "Incompatible argument directive: " << directiveName
-									<< " name: " << argument.first;
+					message << "Incompatible argument directive: " << directiveName
+							<< " name: " << argument.first;
 
-							_errors.push_back({ message.str(), argumentLocations[argument.first] });
-						}
+					_errors.push_back({ message.str(), argumentLocations[argument.first] });
+				}
 
-						continue;
-					}
-					else if (argument.second.defaultValue)
-					{
-						// The argument has a default value.
-						continue;
-					}
+				continue;
+			}
+			else if (argument.second.defaultValue)
+			{
+				// The argument has a default value.
+				continue;
+			}
 
-					// See if the argument is wrapped in NON_NULL
-					if (argument.second.type
-						&& introspection::TypeKind::NON_NULL == argument.second.type->get().kind())
-					{
-						// http://spec.graphql.org/June2018/#sec-Required-Arguments
-						auto position = directive->begin();
-						std::ostringstream message;
+			// See if the argument is wrapped in NON_NULL
+			if (argument.second.type
+				&& introspection::TypeKind::NON_NULL == argument.second.type->get().kind())
+			{
+				// http://spec.graphql.org/June2018/#sec-Required-Arguments
+				auto position = directive->begin();
+				std::ostringstream message;
 
-						message << (missing ? "Missing argument directive: "
-											: "Required non-null argument directive: ")
-								<< directiveName << " name: " << argument.first;
+				message << (missing ? "Missing argument directive: "
+									: "Required non-null argument directive: ")
+						<< directiveName << " name: " << argument.first;
 
-						_errors.push_back({ message.str(), { position.line, position.column } });
-					}
-				}
-			});
+				_errors.push_back({ message.str(), { position.line, position.column } });
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 83d339ad194aacaec260261d3bd91b308815325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 21/57] fix: reject null literals for non-null arguments with a
 default value

---
 src/Validation.cpp | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 8c9f54f..a8f7b47 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -954,7 +954,7 @@ bool ValidateExecutableVisitor::validateInputValue(
 	if (!argument.value)
 	{
 		// The null literal matches any nullable type and does not match a non-nullable type.
-		if (kind == introspection::TypeKind::NON_NULL && !hasNonNullDefaultValue)
+		if (kind == introspection::TypeKind::NON_NULL)
 		{
 			_errors.push_back({ "Expected Non-Null value", argument.position });
 			return false;
@@ -1060,21 +1060,18 @@ bool ValidateExecutableVisitor::validateInputValue(
 					return false;
 				}
 
-				if (entry.second.value || !itrField->second.defaultValue)
+				if (!validateInputValue(itrField->second.nonNullDefaultValue,
+						entry.second,
+						itrField->second.type))
 				{
-					if (!validateInputValue(itrField->second.nonNullDefaultValue,
-							entry.second,
-							itrField->second.type))
-					{
-						// Error messages are added in the recursive call, so just bubble up the
-						// result.
-						return false;
-					}
-
-					// The recursive call may invalidate the iterator, so reacquire it.
-					itrFields = getInputTypeFields(name);
+					// Error messages are added in the recursive call, so just bubble up the
+					// result.
+					return false;
 				}
 
+				// The recursive call may invalidate the iterator, so reacquire it.
+				itrFields = getInputTypeFields(name);
+
 				subFields.emplace(entry.first);
 			}
 
@@ -1725,9 +1722,9 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 
 				continue;
 			}
-			else if (argument.second.defaultValue)
+			else if (missing && argument.second.defaultValue)
 			{
-				// The argument has a default value.
+				// The argument is missing, but it has a default value.
 				continue;
 			}
 
@@ -2086,9 +2083,9 @@ void ValidateExecutableVisitor::visitDirectives(
 
 				continue;
 			}
-			else if (argument.second.defaultValue)
+			else if (missing && argument.second.defaultValue)
 			{
-				// The argument has a default value.
+				// The argument is missing, but it has a default value.
 				continue;
 			}
 
-- 
2.43.0


From 26cadf9ee4126ceaec5cac5bebe89cd7b168ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 22/57] fix: validate variables inside of custom scalar values

---
 include/Validation.h |  1 +
 src/Validation.cpp   | 53 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/include/Validation.h b/include/Validation.h
index 692d2f6..5711461 100644
--- a/include/Validation.h
+++ b/include/Validation.h
@@ -213,6 +213,7 @@ private:
 
 	bool validateInputValue(bool hasNonNullDefaultValue, const ValidateArgumentValuePtr& argument,
 		const ValidateType& type);
+	bool validateScalarVariables(const ValidateArgumentValuePtr& argument);
 	bool validateVariableType(bool isNonNull, const ValidateType& variableType,
 		const schema_location& position, const ValidateType& inputType);
 
diff --git a/src/Validation.cpp b/src/Validation.cpp
index a8f7b47..0eac5cd 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -1213,6 +1213,12 @@ bool ValidateExecutableVisitor::validateInputValue(
 				}
 			}
 
+			else if (!validateScalarVariables(argument))
+			{
+				// Error messages are added in the recursive call, so just bubble up the result.
+				return false;
+			}
+
 			if (_scalarTypes.find(name) == _scalarTypes.end())
 			{
 				std::ostringstream message;
@@ -1234,6 +1240,53 @@ bool ValidateExecutableVisitor::validateInputValue(
 	}
 }
 
+bool ValidateExecutableVisitor::validateScalarVariables(const ValidateArgumentValuePtr& argument)
+{
+	if (!argument.value)
+	{
+		return true;
+	}
+
+	bool result = true;
+
+	if (std::holds_alternative<ValidateArgumentVariable>(argument.value->data))
+	{
+		if (_operationVariables)
+		{
+			const auto& variable = std::get<ValidateArgumentVariable>(argument.value->data);
+
+			if (_operationVariables->find(variable.name) == _operationVariables->end())
+			{
+				// http://spec.graphql.org/June2018/#sec-All-Variable-Uses-Defined
+				std::ostringstream message;
+
+				message << "Undefined variable name: " << variable.name;
+
+				_errors.push_back({ message.str(), argument.position });
+				return false;
+			}
+
+			_referencedVariables.emplace(variable.name);
+		}
+	}
+	else if (std::holds_alternative<ValidateArgumentList>(argument.value->data))
+	{
+		for (const auto& value : std::get<ValidateArgumentList>(argument.value->data).values)
+		{
+			result = validateScalarVariables(value) && result;
+		}
+	}
+	else if (std::holds_alternative<ValidateArgumentMap>(argument.value->data))
+	{
+		for (const auto& entry : std::get<ValidateArgumentMap>(argument.value->data).values)
+		{
+			result = validateScalarVariables(entry.second) && result;
+		}
+	}
+
+	return result;
+}
+
 bool ValidateExecutableVisitor::validateVariableType(bool isNonNull,
 	const ValidateType& variableType, const schema_location& position,
 	const ValidateType& inputType)
-- 
2.43.0


From 4658680198d7fb12709564bdf8c095386f06b62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 23/57] fix: validate variables in fragment definition
 directives

---
 src/Validation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 0eac5cd..fb98a4c 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -1897,6 +1897,14 @@ void ValidateExecutableVisitor::visitFragmentSpread(const peg::ast_node& fragmen
 		return;
 	}
 
+	if (_operationVariables)
+	{
+		// The variables in these directives come from the operation.
+		peg::on_first_child<peg::directives>(itr->second.get(), [this](const peg::ast_node& child) {
+			visitDirectives(introspection::DirectiveLocation::FRAGMENT_DEFINITION, child);
+		});
+	}
+
 	auto outerType = std::move(_scopedType);
 
 	_fragmentStack.emplace(name);
-- 
2.43.0


From fe90c7761b4b33a233a0a5cf279d84c087b810c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 24/57] fix: use Float for integer literals which do not fit in
 an Int

---
 src/GeneratorLoader.cpp | 15 ++++++++++++++-
 src/GraphQLService.cpp  | 15 ++++++++++++++-
 src/Validation.cpp      | 17 +++++++++++++++--
 3 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/GeneratorLoader.cpp b/src/GeneratorLoader.cpp
index 6e1edd6..056d9bc 100644
--- a/src/GeneratorLoader.cpp
+++ b/src/GeneratorLoader.cpp
@@ -6,6 +6,8 @@
 #include "graphqlservice/internal/Grammar.h"
 
 #include <algorithm>
+#include <cstdlib>
+#include <limits>
 
 namespace graphql::generator {
 
@@ -108,7 +110,18 @@ void DefaultValueVisitor::visit(const peg::ast_node& value)
 
 void DefaultValueVisitor::visitIntValue(const peg::ast_node& intValue)
 {
-	_value = response::Value(std::atoi(intValue.string().c_str()));
+	const auto number = std::strtoll(intValue.string().c_str(), nullptr, 10);
+
+	if (number >= std::numeric_limits<response::IntType>::min()
+		&& number <= std::numeric_limits<response::IntType>::max())
+	{
+		_value = response::Value(static_cast<response::IntType>(number));
+	}
+	else
+	{
+		// Numbers outside of the range of an Int can still be used for a Float.
+		_value = response::Value(std::atof(intValue.string().c_str()));
+	}
 }
 
 void DefaultValueVisitor::visitFloatValue(const peg::ast_node& floatValue)
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index a51c477..9d3106b 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -9,7 +9,9 @@
 
 #include <algorithm>
 #include <array>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
 
 namespace graphql::service {
 
@@ -293,7 +295,18 @@ void ValueVisitor::visitVariable(const peg::ast_node& variable)
 
 void ValueVisitor::visitIntValue(const peg::ast_node& intValue)
 {
-	_value = response::Value(std::atoi(intValue.string().c_str()));
+	const auto number = std::strtoll(intValue.string().c_str(), nullptr, 10);
+
+	if (number >= std::numeric_limits<response::IntType>::min()
+		&& number <= std::numeric_limits<response::IntType>::max())
+	{
+		_value = response::Value(static_cast<response::IntType>(number));
+	}
+	else
+	{
+		// Numbers outside of the range of an Int can still be used for a Float.
+		_value = response::Value(std::atof(intValue.string().c_str()));
+	}
 }
 
 void ValueVisitor::visitFloatValue(const peg::ast_node& floatValue)
diff --git a/src/Validation.cpp b/src/Validation.cpp
index fb98a4c..2505e85 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <iostream>
 #include <iterator>
+#include <limits>
 #include <stdexcept>
 
 using namespace std::literals;
@@ -162,10 +163,22 @@ void ValidateArgumentValueVisitor::visitVariable(const peg::ast_node& variable)
 
 void ValidateArgumentValueVisitor::visitIntValue(const peg::ast_node& intValue)
 {
-	response::IntType value { std::atoi(intValue.string().c_str()) };
+	const auto number = std::strtoll(intValue.string().c_str(), nullptr, 10);
 	auto position = intValue.begin();
 
-	_argumentValue.value = std::make_unique<ValidateArgumentValue>(value);
+	if (number >= std::numeric_limits<response::IntType>::min()
+		&& number <= std::numeric_limits<response::IntType>::max())
+	{
+		_argumentValue.value =
+			std::make_unique<ValidateArgumentValue>(static_cast<response::IntType>(number));
+	}
+	else
+	{
+		// http://spec.graphql.org/June2018/#sec-Int
+		_argumentValue.value = std::make_unique<ValidateArgumentValue>(
+			response::FloatType { std::atof(intValue.string().c_str()) });
+	}
+
 	_argumentValue.position = { position.line, position.column };
 }
 
-- 
2.43.0


From c0ff1473beaf8f0ad91ee23653a4425e58b382c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 25/57] fix: reject variables in the default values of schema
 documents

---
 src/GeneratorLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GeneratorLoader.cpp b/src/GeneratorLoader.cpp
index 056d9bc..c9ee75b 100644
--- a/src/GeneratorLoader.cpp
+++ b/src/GeneratorLoader.cpp
@@ -96,7 +96,7 @@ void DefaultValueVisitor::visit(const peg::ast_node& value)
 	{
 		visitObjectValue(value);
 	}
-	else if (value.is_type<peg::variable>())
+	else if (value.is_type<peg::variable_value>())
 	{
 		std::ostringstream error;
 		const auto position = value.begin();
-- 
2.43.0


From 6a69a1702e0baeba7114429c9245a3d576b31833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 26/57] fix: merge all of the field selections with the same
 response name in validation

---
 include/Validation.h |  35 ++++++++--
 src/Validation.cpp   | 160 +++++++++++++++++++++++++++++++------------
 2 files changed, 147 insertions(+), 48 deletions(-)

diff --git a/include/Validation.h b/include/Validation.h
index 5711461..2bcc291 100644
--- a/include/Validation.h
+++ b/include/Validation.h
@@ -125,17 +125,40 @@ private:
 
 using ValidateFieldArguments = internal::string_view_map<ValidateArgumentValuePtr>;
 
+// The object type of the parent selection set at each level starting from the root. If the parent is
+// an interface or a union, there's no object type at that level.
+using ValidateObjectTypes = std::vector<ValidateType>;
+
 struct ValidateField
 {
-	ValidateField(ValidateType&& returnType, ValidateType&& objectType, std::string_view fieldName,
+	ValidateField(const peg::ast_node& field, ValidateType&& returnType,
+		ValidateObjectTypes&& objectTypes, std::string_view fieldName,
 		ValidateFieldArguments&& arguments);
 
-	bool operator==(const ValidateField& other) const;
+	bool isSameSelection(const ValidateField& other) const;
+	bool canMerge(const ValidateField& other) const;
 
+	const peg::ast_node* field;
 	ValidateType returnType;
-	ValidateType objectType;
+	ValidateObjectTypes objectTypes;
 	std::string_view fieldName;
 	ValidateFieldArguments arguments;
+
+private:
+	bool hasSameResponseShape(const ValidateField& other) const;
+	bool hasDistinctObjectTypes(const ValidateField& other) const;
+};
+
+struct ValidateResponseField;
+
+using ValidateResponseFields = internal::string_view_map<ValidateResponseField>;
+
+// All of the fields which share a response name in a selection set, along with the fields in all of
+// their merged sub-selections.
+struct ValidateResponseField
+{
+	std::list<ValidateField> fields;
+	std::shared_ptr<ValidateResponseFields> subFields;
 };
 
 using ValidateTypes = internal::string_view_map<ValidateType>;
@@ -186,8 +209,6 @@ private:
 	using InputTypeFields = internal::string_view_map<InputFieldTypes>;
 	using EnumValues = internal::string_view_map<internal::string_view_set>;
 
-	constexpr bool isScalarType(introspection::TypeKind kind);
-
 	bool matchesScopedType(std::string_view name) const;
 
 	TypeFields::const_iterator getScopedTypeFields();
@@ -255,7 +276,9 @@ private:
 	TypeFields _typeFields;
 	InputTypeFields _inputTypeFields;
 	ValidateType _scopedType;
-	internal::string_view_map<ValidateField> _selectionFields;
+	ValidateObjectTypes _objectTypes;
+	std::shared_ptr<ValidateResponseFields> _selectionFields =
+		std::make_shared<ValidateResponseFields>();
 };
 
 } // namespace graphql::service
diff --git a/src/Validation.cpp b/src/Validation.cpp
index 2505e85..f811da2 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -276,22 +276,94 @@ void ValidateArgumentValueVisitor::visitObjectValue(const peg::ast_node& objectV
 	_argumentValue.position = { position.line, position.column };
 }
 
-ValidateField::ValidateField(ValidateType&& returnType, ValidateType&& objectType,
-	std::string_view fieldName, ValidateFieldArguments&& arguments)
-	: returnType(std::move(returnType))
-	, objectType(std::move(objectType))
+constexpr bool isScalarType(introspection::TypeKind kind)
+{
+	switch (kind)
+	{
+		case introspection::TypeKind::OBJECT:
+		case introspection::TypeKind::INTERFACE:
+		case introspection::TypeKind::UNION:
+			return false;
+
+		default:
+			return true;
+	}
+}
+
+ValidateField::ValidateField(const peg::ast_node& field, ValidateType&& returnType,
+	ValidateObjectTypes&& objectTypes, std::string_view fieldName,
+	ValidateFieldArguments&& arguments)
+	: field(&field)
+	, returnType(std::move(returnType))
+	, objectTypes(std::move(objectTypes))
 	, fieldName(fieldName)
 	, arguments(std::move(arguments))
 {
 }
 
-bool ValidateField::operator==(const ValidateField& other) const
+bool ValidateField::isSameSelection(const ValidateField& other) const
+{
+	return field == other.field
+		&& std::equal(objectTypes.cbegin(),
+			objectTypes.cend(),
+			other.objectTypes.cbegin(),
+			other.objectTypes.cend(),
+			[](const ValidateType& lhs, const ValidateType& rhs) noexcept {
+				return getSharedType(lhs) == getSharedType(rhs);
+			});
+}
+
+bool ValidateField::canMerge(const ValidateField& other) const
 {
-	return (returnType == other.returnType)
-		&& ((objectType && other.objectType && &objectType->get() != &other.objectType->get())
+	return hasSameResponseShape(other)
+		&& (hasDistinctObjectTypes(other)
 			|| (fieldName == other.fieldName && arguments == other.arguments));
 }
 
+bool ValidateField::hasSameResponseShape(const ValidateField& other) const
+{
+	auto lhs = getSharedType(returnType);
+	auto rhs = getSharedType(other.returnType);
+
+	while (lhs && rhs)
+	{
+		const auto lhsKind = lhs->kind();
+		const auto rhsKind = rhs->kind();
+
+		if (lhsKind != introspection::TypeKind::NON_NULL
+			&& lhsKind != introspection::TypeKind::LIST
+			&& rhsKind != introspection::TypeKind::NON_NULL
+			&& rhsKind != introspection::TypeKind::LIST)
+		{
+			return (!isScalarType(lhsKind) && !isScalarType(rhsKind))
+				|| (lhsKind == rhsKind && lhs->name() == rhs->name());
+		}
+
+		if (lhsKind != rhsKind)
+		{
+			return false;
+		}
+
+		lhs = lhs->ofType().lock();
+		rhs = rhs->ofType().lock();
+	}
+
+	return lhs == rhs;
+}
+
+bool ValidateField::hasDistinctObjectTypes(const ValidateField& other) const
+{
+	// If the parents of the fields are different object types at any level, the fields can never be
+	// merged into the same response object.
+	return !std::equal(objectTypes.cbegin(),
+		objectTypes.cend(),
+		other.objectTypes.cbegin(),
+		other.objectTypes.cend(),
+		[](const ValidateType& lhs, const ValidateType& rhs) noexcept {
+			return !lhs || !rhs || &lhs->get() == &rhs->get();
+		});
+}
+
 ValidateVariableTypeVisitor::ValidateVariableTypeVisitor(
 	const std::shared_ptr<schema::Schema>& schema, const ValidateTypes& types)
 	: _schema(schema)
@@ -640,7 +712,7 @@ void ValidateExecutableVisitor::visitFragmentDefinition(const peg::ast_node& fra
 
 	_scopedType.reset();
 	_fragmentStack.clear();
-	_selectionFields.clear();
+	_selectionFields->clear();
 }
 
 void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& operationDefinition)
@@ -796,7 +868,7 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 
 	visitSelection(selection);
 
-	if (_fieldCount > 1 && operationType == strSubscription)
+	if (_selectionFields->size() > 1 && operationType == strSubscription)
 	{
 		// http://spec.graphql.org/June2018/#sec-Single-root-field
 		auto position = operationDefinition.begin();
@@ -814,7 +886,7 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 
 	_scopedType.reset();
 	_fragmentStack.clear();
-	_selectionFields.clear();
+	_selectionFields->clear();
 
 	for (const auto& variable : _variableDefinitions)
 	{
@@ -879,20 +951,6 @@ ValidateTypeFieldArguments ValidateExecutableVisitor::getArguments(
 	return result;
 }
 
-constexpr bool ValidateExecutableVisitor::isScalarType(introspection::TypeKind kind)
-{
-	switch (kind)
-	{
-		case introspection::TypeKind::OBJECT:
-		case introspection::TypeKind::INTERFACE:
-		case introspection::TypeKind::UNION:
-			return false;
-
-		default:
-			return true;
-	}
-}
-
 bool ValidateExecutableVisitor::matchesScopedType(std::string_view name) const
 {
 	if (name == _scopedType->get().name())
@@ -1717,32 +1775,41 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 			}
 		});
 
-	ValidateType objectType =
-		(_scopedType->get().kind() == introspection::TypeKind::OBJECT ? _scopedType
-																	  : ValidateType {});
-	ValidateField validateField(std::move(wrappedType),
-		std::move(objectType),
+	auto objectTypes = _objectTypes;
+
+	objectTypes.push_back(_scopedType->get().kind() == introspection::TypeKind::OBJECT
+			? _scopedType
+			: ValidateType {});
+
+	ValidateField validateField(field,
+		std::move(wrappedType),
+		std::move(objectTypes),
 		name,
 		std::move(validateArguments));
-	auto itrValidateField = _selectionFields.find(alias);
+	auto& responseField = (*_selectionFields)[alias];
+	bool conflict = false;
 
-	if (itrValidateField != _selectionFields.end())
+	for (const auto& entry : responseField.fields)
 	{
-		if (itrValidateField->second == validateField)
+		if (entry.isSameSelection(validateField))
 		{
 			// We already validated this field.
+			++_fieldCount;
 			return;
 		}
-		else
-		{
-			// http://spec.graphql.org/June2018/#sec-Field-Selection-Merging
-			auto position = field.begin();
-			std::ostringstream message;
 
-			message << "Conflicting field type: " << _scopedType->get().name() << " name: " << name;
+		conflict = conflict || !entry.canMerge(validateField);
+	}
 
-			_errors.push_back({ message.str(), { position.line, position.column } });
-		}
+	if (conflict)
+	{
+		// http://spec.graphql.org/June2018/#sec-Field-Selection-Merging
+		auto position = field.begin();
+		std::ostringstream message;
+
+		message << "Conflicting field type: " << _scopedType->get().name() << " name: " << name;
+
+		_errors.push_back({ message.str(), { position.line, position.column } });
 	}
 
 	auto itrField = itrType->second.find(name);
@@ -1812,7 +1879,13 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 		}
 	}
 
-	_selectionFields.emplace(alias, std::move(validateField));
+	_objectTypes.push_back(validateField.objectTypes.back());
+	responseField.fields.push_back(std::move(validateField));
+
+	if (!responseField.subFields)
+	{
+		responseField.subFields = std::make_shared<ValidateResponseFields>();
+	}
 
 	const peg::ast_node* selection = nullptr;
 
@@ -1829,7 +1902,8 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 		auto outerFieldCount = _fieldCount;
 
 		_fieldCount = 0;
-		_selectionFields.clear();
+		_selectionFields =
+			conflict ? std::make_shared<ValidateResponseFields>() : responseField.subFields;
 		_scopedType = std::move(innerType);
 
 		visitSelection(*selection);
@@ -1841,6 +1915,8 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 		_fieldCount = outerFieldCount;
 	}
 
+	_objectTypes.pop_back();
+
 	if (subFieldCount == 0 && !isScalarType(innerType->get().kind()))
 	{
 		// http://spec.graphql.org/June2018/#sec-Leaf-Field-Selections
-- 
2.43.0


From 5d9a88589959df770ffd71f2ca95f5d0c19124a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 27/57] fix: keep embedded null characters in JSON strings and
 keys

---
 src/JSONResponse.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index c0d9172..29c00d1 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -28,7 +28,7 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 
 			for (auto& entry : members)
 			{
-				writer.Key(entry.first.c_str());
+				writer.Key(entry.first.c_str(), static_cast<rapidjson::SizeType>(entry.first.size()));
 				writeResponse(writer, std::move(entry.second));
 			}
 
@@ -56,7 +56,7 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 		{
 			auto value = response.release<StringType>();
 
-			writer.String(value.c_str());
+			writer.String(value.c_str(), static_cast<rapidjson::SizeType>(value.size()));
 			break;
 		}
 
@@ -178,9 +178,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool String(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool String(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		setValue(Value(std::string(str)).from_json());
+		setValue(Value(std::string(str, length)).from_json());
 		return true;
 	}
 
@@ -190,9 +190,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool Key(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool Key(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		_keyStack.push_back(str);
+		_keyStack.emplace_back(str, length);
 		return true;
 	}
 
-- 
2.43.0


From ae24133893682f668867d9007e4edb84a8b138f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 28/57] fix: parse JSON numbers with full precision

---
 src/JSONResponse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index 29c00d1..7196086 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -244,7 +244,7 @@ Value parseJSON(const std::string& json)
 	rapidjson::Reader reader;
 	rapidjson::StringStream ss(json.c_str());
 
-	reader.Parse(ss, handler);
+	reader.Parse<rapidjson::kParseFullPrecisionFlag>(ss, handler);
 
 	return handler.getResponse();
 }
-- 
2.43.0


From fcb153f11864b41986b2e17e350ba10ba982291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 29/57] fix: copy scalar values which have not been set

---
 src/GraphQLResponse.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLResponse.cpp b/src/GraphQLResponse.cpp
index 7ddaf65..8758471 100644
--- a/src/GraphQLResponse.cpp
+++ b/src/GraphQLResponse.cpp
@@ -466,8 +466,12 @@ Value::Value(const Value& other)
 			break;
 
 		case Type::Scalar:
-			_data = { ScalarData { std::make_unique<ScalarType>(other.get<ScalarType>()) } };
+		{
+			const auto& scalar = std::get<ScalarData>(other._data).scalar;
+
+			_data = { ScalarData { scalar ? std::make_unique<ScalarType>(*scalar) : nullptr } };
 			break;
+		}
 	}
 }
 
-- 
2.43.0


From 117a6da6f869e651571a74ba777e3961a25aef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 30/57] fix: evaluate only the fragments which the selected
 operation uses

---
 src/GraphQLService.cpp | 65 ++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 9d3106b..fa9a2da 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1311,25 +1311,28 @@ response::Value buildOperationVariables(
 	return operationVariables;
 }
 
-// FragmentDefinitionVisitor visits the AST and collects all of the fragment
-// definitions in the document.
+// FragmentDefinitionVisitor visits the AST and collects the fragment definitions in the document
+// which the operation uses. The other fragments may depend on variables of another operation.
 class FragmentDefinitionVisitor
 {
 public:
-	FragmentDefinitionVisitor(const response::Value& variables);
+	FragmentDefinitionVisitor(const peg::ast_node& root, const response::Value& variables);
 
 	FragmentMap getFragments();
 
-	void visit(const peg::ast_node& fragmentDefinition);
+	void visit(const peg::ast_node& definition);
 
 private:
+	const peg::ast_node& _root;
 	const response::Value& _variables;
 
 	FragmentMap _fragments;
 };
 
-FragmentDefinitionVisitor::FragmentDefinitionVisitor(const response::Value& variables)
-	: _variables(variables)
+FragmentDefinitionVisitor::FragmentDefinitionVisitor(
+	const peg::ast_node& root, const response::Value& variables)
+	: _root(root)
+	, _variables(variables)
 {
 }
 
@@ -1339,10 +1342,33 @@ FragmentMap FragmentDefinitionVisitor::getFragments()
 	return result;
 }
 
-void FragmentDefinitionVisitor::visit(const peg::ast_node& fragmentDefinition)
+void FragmentDefinitionVisitor::visit(const peg::ast_node& definition)
 {
-	_fragments.emplace(fragmentDefinition.children.front()->string_view(),
-		Fragment(fragmentDefinition, _variables));
+	for (const auto& child : definition.children)
+	{
+		if (!child->is_type<peg::fragment_spread>())
+		{
+			visit(*child);
+			continue;
+		}
+
+		const auto name = child->children.front()->string_view();
+
+		peg::on_first_child_if<peg::fragment_definition>(_root,
+			[this, name](const peg::ast_node& fragmentDefinition) {
+				if (fragmentDefinition.children.front()->string_view() != name)
+				{
+					return false;
+				}
+
+				if (_fragments.emplace(name, Fragment(fragmentDefinition, _variables)).second)
+				{
+					visit(fragmentDefinition);
+				}
+
+				return true;
+			});
+	}
 }
 
 // OperationDefinitionVisitor visits the AST and executes the one with the specified
@@ -1778,12 +1804,9 @@ std::future<response::Value> Request::resolve(std::launch launch,
 
 		variables = buildOperationVariables(*operationDefinition.second, variables);
 
-		FragmentDefinitionVisitor fragmentVisitor(variables);
+		FragmentDefinitionVisitor fragmentVisitor(*query.root, variables);
 
-		peg::for_each_child<peg::fragment_definition>(*query.root,
-			[&fragmentVisitor](const peg::ast_node& child) {
-				fragmentVisitor.visit(child);
-			});
+		fragmentVisitor.visit(*operationDefinition.second);
 
 		auto fragments = fragmentVisitor.getFragments();
 		const bool isMutation = (operationDefinition.first == strMutation);
@@ -1928,12 +1951,9 @@ std::future<response::Value> Request::resolveUnvalidated(std::launch launch,
 
 		variables = buildOperationVariables(*operationDefinition.second, variables);
 
-		FragmentDefinitionVisitor fragmentVisitor(variables);
+		FragmentDefinitionVisitor fragmentVisitor(root, variables);
 
-		peg::for_each_child<peg::fragment_definition>(root,
-			[&fragmentVisitor](const peg::ast_node& child) {
-				fragmentVisitor.visit(child);
-			});
+		fragmentVisitor.visit(*operationDefinition.second);
 
 		auto fragments = fragmentVisitor.getFragments();
 		const bool isMutation = (operationDefinition.first == strMutation);
@@ -2031,12 +2051,9 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 
 	params.variables = buildOperationVariables(*operationDefinition.second, params.variables);
 
-	FragmentDefinitionVisitor fragmentVisitor(params.variables);
+	FragmentDefinitionVisitor fragmentVisitor(*params.query.root, params.variables);
 
-	peg::for_each_child<peg::fragment_definition>(*params.query.root,
-		[&fragmentVisitor](const peg::ast_node& child) {
-			fragmentVisitor.visit(child);
-		});
+	fragmentVisitor.visit(*operationDefinition.second);
 
 	auto fragments = fragmentVisitor.getFragments();
 
-- 
2.43.0


From 869c05b4957a321c76ea74b41b27fdc27f562032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 31/57] fix: keep the name of the source alive with the syntax
 tree

---
 src/SyntaxTree.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index a555a63..80db6bf 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -737,6 +737,9 @@ template <>
 const std::string ast_control<schema_document_content>::error_message =
 	"Expected schema type http://spec.graphql.org/June2018/#Document";
 
+// The nodes of the syntax tree keep a view of the name of the source, so it has to outlive the input.
+using ast_memory_input = memory_input<tracking_mode::eager, eol::lf_crlf, std::string_view>;
+
 ast parseSchemaString(std::string_view input)
 {
 	ast result { std::make_shared<ast_input>(
@@ -749,7 +752,7 @@ ast parseSchemaString(std::string_view input)
 		// Try a smaller grammar with only schema type definitions first.
 		result.root =
 			parse_tree::parse<schema_document, ast_node, schema_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				ast_memory_input(data.data(), data.size(), "GraphQL"));
 	}
 	catch (const peg::parse_error&)
 	{
@@ -757,7 +760,7 @@ ast parseSchemaString(std::string_view input)
 		// executable definitions if this is a mixed document.
 		result.root =
 			parse_tree::parse<mixed_document, ast_node, schema_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				ast_memory_input(data.data(), data.size(), "GraphQL"));
 	}
 
 	return result;
@@ -808,7 +811,7 @@ ast parseString(std::string_view input)
 		// Try a smaller grammar with only executable definitions first.
 		result.root = parse_tree::
 			parse<executable_document, ast_node, executable_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				ast_memory_input(data.data(), data.size(), "GraphQL"));
 	}
 	catch (const peg::parse_error&)
 	{
@@ -816,7 +819,7 @@ ast parseString(std::string_view input)
 		// definitions if this is a mixed document.
 		result.root =
 			parse_tree::parse<mixed_document, ast_node, executable_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				ast_memory_input(data.data(), data.size(), "GraphQL"));
 	}
 
 	return result;
@@ -870,7 +873,7 @@ peg::ast operator"" _graphql(const char* text, size_t size)
 			peg::ast_node,
 			peg::executable_selector,
 			peg::nothing,
-			peg::ast_control>(peg::memory_input<>(text, size, "GraphQL"));
+			peg::ast_control>(peg::ast_memory_input(text, size, "GraphQL"));
 	}
 	catch (const peg::parse_error&)
 	{
@@ -880,7 +883,7 @@ peg::ast operator"" _graphql(const char* text, size_t size)
 			peg::ast_node,
 			peg::executable_selector,
 			peg::nothing,
-			peg::ast_control>(peg::memory_input<>(text, size, "GraphQL"));
+			peg::ast_control>(peg::ast_memory_input(text, size, "GraphQL"));
 	}
 
 	return result;
-- 
2.43.0


From 68f78bd28c6ebf770f22bd6e2899c9a6b47510f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 32/57] fix: keep the other elements of a list when one of them
 fails right away

---
 include/graphqlservice/GraphQLService.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index c320414..069e75a 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -648,6 +648,23 @@ struct ModifiedResult
 
 				using vector_type = std::decay_t<decltype(wrappedFuture.get())>;
 
+				// The conversion of an entry may fail right away, it should still only affect that entry.
+				const auto convertEntry = [&children, &wrappedParams](
+											  typename vector_type::value_type&& entry) {
+					try
+					{
+						children.push_back(ModifiedResult::convert<Other...>(std::move(entry),
+							ResolverParams(wrappedParams)));
+					}
+					catch (...)
+					{
+						std::promise<ResolverResult> failed;
+
+						failed.set_exception(std::current_exception());
+						children.push_back(failed.get_future());
+					}
+				};
+
 				if constexpr (!std::is_same_v<std::decay_t<typename vector_type::reference>,
 								  typename vector_type::value_type>)
 				{
@@ -656,8 +673,7 @@ struct ModifiedResult
 					// Copy the values from the std::vector<> rather than moving them.
 					for (typename vector_type::value_type entry : wrappedResult)
 					{
-						children.push_back(ModifiedResult::convert<Other...>(std::move(entry),
-							ResolverParams(wrappedParams)));
+						convertEntry(std::move(entry));
 						++std::get<size_t>(wrappedParams.errorPath->segment);
 					}
 				}
@@ -665,8 +681,7 @@ struct ModifiedResult
 				{
 					for (auto& entry : wrappedResult)
 					{
-						children.push_back(ModifiedResult::convert<Other...>(std::move(entry),
-							ResolverParams(wrappedParams)));
+						convertEntry(std::move(entry));
 						++std::get<size_t>(wrappedParams.errorPath->segment);
 					}
 				}
-- 
2.43.0


From d42abf3d7e06e1f684b423c12cabab89757529f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 33/57] fix: refuse Base64 text with too much or too little
 padding

---
 src/Base64.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index fd520ab..bf8f081 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -46,6 +46,8 @@ std::vector<std::uint8_t> Base64::fromBase64(std::string_view encoded)
 		encoded = encoded.substr(4);
 	}
 
+	size_t expectedPadding = 0;
+
 	// Get any leftover partial segment with 2 or 3 non-padding characters
 	if (encoded.size() > 1)
 	{
@@ -66,6 +68,7 @@ std::vector<std::uint8_t> Base64::fromBase64(std::string_view encoded)
 			result.emplace_back(static_cast<std::uint8_t>(segment & 0xFF));
 
 			encoded = encoded.substr(3);
+			expectedPadding = 1;
 		}
 		else
 		{
@@ -77,12 +80,12 @@ std::vector<std::uint8_t> Base64::fromBase64(std::string_view encoded)
 			result.emplace_back(static_cast<std::uint8_t>((segment & 0xFF00) >> 8));
 
 			encoded = encoded.substr(2);
+			expectedPadding = 2;
 		}
 	}
 
-	// Make sure anything that's left is 0 - 2 characters of padding
-	if ((encoded.size() > 0 && padding != encoded[0])
-		|| (encoded.size() > 1 && padding != encoded[1]) || encoded.size() > 2)
+	// Make sure anything that's left is exactly the padding of the partial segment
+	if (!encoded.empty() && encoded != std::string_view { "==", expectedPadding })
 	{
 		throw std::logic_error { "invalid padding at the end of a base64 encoded string" };
 	}
-- 
2.43.0


From cfbcd258000c71ec1d22c679bdfe0e8ec4b8eda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 34/57] fix: let the client serialize lists of non-null Boolean
 variables

---
 include/graphqlservice/GraphQLClient.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/graphqlservice/GraphQLClient.h b/include/graphqlservice/GraphQLClient.h
index 4893381..fda0f9c 100644
--- a/include/graphqlservice/GraphQLClient.h
+++ b/include/graphqlservice/GraphQLClient.h
@@ -129,9 +129,11 @@ struct ModifiedVariable
 		response::Value result { response::Type::List };
 
 		result.reserve(listValue.size());
-		std::for_each(listValue.begin(), listValue.end(), [&result](auto& value) {
+		// The elements of a std::vector<bool> are proxies, they can't bind to an l-value reference.
+		for (auto&& value : listValue)
+		{
 			result.emplace_back(serialize<Other...>(std::move(value)));
-		});
+		}
 		listValue.clear();
 
 		return result;
-- 
2.43.0


From 37a965e8707260d598e1eee0e9599aec67882d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 35/57] fix: read a zero with an exponent in JSON as zero

---
 src/JSONResponse.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index 7196086..764292b 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -12,6 +12,7 @@
 
 #include <limits>
 #include <stdexcept>
+#include <string>
 #include <vector>
 
 namespace graphql::response {
@@ -178,6 +179,23 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
+	bool RawNumber(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
+	{
+		const std::string number(str, length);
+		const auto exponent = number.find_first_of("eE");
+
+		// The full precision conversion in RapidJSON doesn't handle zero with a large exponent.
+		if (exponent != std::string::npos && number.find_first_of("123456789") >= exponent)
+		{
+			return Double(number.front() == '-' ? -0.0 : 0.0);
+		}
+
+		rapidjson::Reader reader;
+		rapidjson::StringStream ss(number.c_str());
+
+		return !reader.Parse<rapidjson::kParseFullPrecisionFlag>(ss, *this).IsError();
+	}
+
 	bool String(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
 		setValue(Value(std::string(str, length)).from_json());
@@ -244,7 +262,7 @@ Value parseJSON(const std::string& json)
 	rapidjson::Reader reader;
 	rapidjson::StringStream ss(json.c_str());
 
-	reader.Parse<rapidjson::kParseFullPrecisionFlag>(ss, handler);
+	reader.Parse<rapidjson::kParseNumbersAsStringsFlag>(ss, handler);
 
 	return handler.getResponse();
 }
-- 
2.43.0


From 0d58b28993b78f65f55d738086daa70621e150d8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 36/57] fix: apply extensions which come before the definition

The schema loader visited definitions and extensions in the order of the
document and silently ignored an extension of a type which was defined
later. It also refused extend scalar as an executable definition.
---
 include/SchemaLoader.h |  1 +
 src/SchemaLoader.cpp   | 30 +++++++++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/SchemaLoader.h b/include/SchemaLoader.h
index cbd8169..47710b6 100644
--- a/include/SchemaLoader.h
+++ b/include/SchemaLoader.h
@@ -259,6 +259,7 @@ public:
 	std::string getOutputCppType(const OutputField& field) const noexcept;
 
 private:
+	static bool isExtension(const peg::ast_node& definition) noexcept;
 	void visitDefinition(const peg::ast_node& definition);
 
 	void visitSchemaDefinition(const peg::ast_node& schemaDefinition);
diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index cd347d7..0270c30 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -163,9 +163,22 @@ SchemaLoader::SchemaLoader(std::optional<SchemaOptions>&& customSchema)
 		}
 	}
 
+	// Extensions may come before the definitions which they extend, so visit all of the
+	// definitions first.
 	for (const auto& child : _ast.root->children)
 	{
-		visitDefinition(*child);
+		if (!isExtension(*child))
+		{
+			visitDefinition(*child);
+		}
+	}
+
+	for (const auto& child : _ast.root->children)
+	{
+		if (isExtension(*child))
+		{
+			visitDefinition(*child);
+		}
 	}
 
 	validateSchema();
@@ -549,6 +562,17 @@ void SchemaLoader::reorderInputTypeDependencies()
 	}
 }
 
+bool SchemaLoader::isExtension(const peg::ast_node& definition) noexcept
+{
+	return definition.is_type<peg::schema_extension>()
+		|| definition.is_type<peg::scalar_type_extension>()
+		|| definition.is_type<peg::enum_type_extension>()
+		|| definition.is_type<peg::input_object_type_extension>()
+		|| definition.is_type<peg::union_type_extension>()
+		|| definition.is_type<peg::interface_type_extension>()
+		|| definition.is_type<peg::object_type_extension>();
+}
+
 void SchemaLoader::visitDefinition(const peg::ast_node& definition)
 {
 	if (definition.is_type<peg::schema_definition>())
@@ -563,6 +587,10 @@ void SchemaLoader::visitDefinition(const peg::ast_node& definition)
 	{
 		visitScalarTypeDefinition(definition);
 	}
+	else if (definition.is_type<peg::scalar_type_extension>())
+	{
+		// These only add directives.
+	}
 	else if (definition.is_type<peg::enum_type_definition>())
 	{
 		visitEnumTypeDefinition(definition);
-- 
2.43.0


From d70ca02938a788145e3c32b01797f1d176c3a2c6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 37/57] fix: refuse extensions of undefined types

The schema loader silently dropped everything an extension of an undefined
type, or of a type of another kind, declared.
---
 include/SchemaLoader.h |  2 ++
 src/SchemaLoader.cpp   | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/include/SchemaLoader.h b/include/SchemaLoader.h
index 47710b6..cbd08df 100644
--- a/include/SchemaLoader.h
+++ b/include/SchemaLoader.h
@@ -273,6 +273,8 @@ private:
 	void visitUnionTypeExtension(const peg::ast_node& unionTypeExtension);
 	void visitInterfaceTypeDefinition(const peg::ast_node& interfaceTypeDefinition);
 	void visitInterfaceTypeExtension(const peg::ast_node& interfaceTypeExtension);
+	[[noreturn]] static void throwUnknownExtension(
+		std::string_view name, const peg::ast_node& extension);
 	void visitObjectTypeDefinition(const peg::ast_node& objectTypeDefinition);
 	void visitObjectTypeExtension(const peg::ast_node& objectTypeExtension);
 	void visitDirectiveDefinition(const peg::ast_node& directiveDefinition);
diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 0270c30..75de998 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -590,6 +590,13 @@ void SchemaLoader::visitDefinition(const peg::ast_node& definition)
 	else if (definition.is_type<peg::scalar_type_extension>())
 	{
 		// These only add directives.
+		peg::on_first_child<peg::scalar_name>(definition,
+			[this, &definition](const peg::ast_node& child) {
+				if (_scalarNames.find(child.string_view()) == _scalarNames.cend())
+				{
+					throwUnknownExtension(child.string_view(), definition);
+				}
+			});
 	}
 	else if (definition.is_type<peg::enum_type_definition>())
 	{
@@ -671,6 +678,17 @@ void SchemaLoader::visitSchemaExtension(const peg::ast_node& schemaExtension)
 		});
 }
 
+void SchemaLoader::throwUnknownExtension(std::string_view name, const peg::ast_node& extension)
+{
+	const auto position = extension.begin();
+	std::ostringstream error;
+
+	error << "Unknown type extended: " << name << " line: " << position.line
+		  << " column: " << position.column;
+
+	throw std::runtime_error(error.str());
+}
+
 void SchemaLoader::visitObjectTypeDefinition(const peg::ast_node& objectTypeDefinition)
 {
 	std::string_view name;
@@ -730,6 +748,10 @@ void SchemaLoader::visitObjectTypeExtension(const peg::ast_node& objectTypeExten
 				}
 			});
 	}
+	else
+	{
+		throwUnknownExtension(name, objectTypeExtension);
+	}
 }
 
 void SchemaLoader::visitInterfaceTypeDefinition(const peg::ast_node& interfaceTypeDefinition)
@@ -787,6 +809,10 @@ void SchemaLoader::visitInterfaceTypeExtension(const peg::ast_node& interfaceTyp
 				}
 			});
 	}
+	else
+	{
+		throwUnknownExtension(name, interfaceTypeExtension);
+	}
 }
 
 void SchemaLoader::visitInputObjectTypeDefinition(const peg::ast_node& inputObjectTypeDefinition)
@@ -844,6 +870,10 @@ void SchemaLoader::visitInputObjectTypeExtension(const peg::ast_node& inputObjec
 				}
 			});
 	}
+	else
+	{
+		throwUnknownExtension(name, inputObjectTypeExtension);
+	}
 }
 
 void SchemaLoader::visitEnumTypeDefinition(const peg::ast_node& enumTypeDefinition)
@@ -948,6 +978,10 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 			enumType.values.push_back(std::move(value));
 		});
 	}
+	else
+	{
+		throwUnknownExtension(name, enumTypeExtension);
+	}
 }
 
 void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefinition)
@@ -1021,6 +1055,10 @@ void SchemaLoader::visitUnionTypeExtension(const peg::ast_node& unionTypeExtensi
 				unionType.options.push_back(child.string_view());
 			});
 	}
+	else
+	{
+		throwUnknownExtension(name, unionTypeExtension);
+	}
 }
 
 void SchemaLoader::visitDirectiveDefinition(const peg::ast_node& directiveDefinition)
-- 
2.43.0


From 9757f469dbb6f879a53d4a547b7fda0f7d65c3c0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 38/57] fix: check the argument types of fields with built-in
 types and of directives

The schema loader skipped the arguments of fields whose type is built in,
and of directives, so that undefined and output types were accepted there
and the generated code did not compile or failed when it was loaded.
---
 src/SchemaLoader.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 75de998..83bf42c 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -215,6 +215,11 @@ void SchemaLoader::validateSchema()
 	// Handle nested input types by fully declaring the dependencies first.
 	reorderInputTypeDependencies();
 
+	for (auto& entry : _directives)
+	{
+		fixupInputFieldList(entry.arguments);
+	}
+
 	for (auto& entry : _interfaceTypes)
 	{
 		fixupOutputFieldList(entry.fields, std::nullopt, std::nullopt);
@@ -390,6 +395,8 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 			entry.accessor = *accessor;
 		}
 
+		fixupInputFieldList(entry.arguments);
+
 		if (s_builtinTypes.find(entry.type) != s_builtinTypes.cend())
 		{
 			continue;
@@ -448,8 +455,6 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 				throw std::runtime_error(error.str());
 			}
 		}
-
-		fixupInputFieldList(entry.arguments);
 	}
 }
 
-- 
2.43.0


From 217439186028071c599247d867d0e126a9806c56 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 39/57] fix: give @deprecated without a reason its default
 reason

An enum value was not deprecated at all, and a field had an empty reason
instead of the default which the introspection schema declares.
---
 include/SchemaLoader.h | 1 +
 src/SchemaLoader.cpp   | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/SchemaLoader.h b/include/SchemaLoader.h
index cbd08df..1c5d1c6 100644
--- a/include/SchemaLoader.h
+++ b/include/SchemaLoader.h
@@ -290,6 +290,7 @@ private:
 	void reorderInputTypeDependencies();
 
 	static const std::string_view s_introspectionNamespace;
+	static const std::string_view s_defaultDeprecationReason;
 	static const BuiltinTypeMap s_builtinTypes;
 	static const CppTypeMap s_builtinCppTypes;
 	static const std::string_view s_scalarCppType;
diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 83bf42c..1f97a52 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -32,6 +32,7 @@ const CppTypeMap SchemaLoader::s_builtinCppTypes = {
 	"response::IdType"sv,
 };
 
+const std::string_view SchemaLoader::s_defaultDeprecationReason = "No longer supported"sv;
 const std::string_view SchemaLoader::s_scalarCppType = R"cpp(response::Value)cpp"sv;
 
 SchemaLoader::SchemaLoader(std::optional<SchemaOptions>&& customSchema)
@@ -952,7 +953,7 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 
 						if (directiveName == "deprecated")
 						{
-							std::string_view reason;
+							value.deprecationReason = s_defaultDeprecationReason;
 
 							peg::on_first_child<peg::arguments>(directive,
 								[&value](const peg::ast_node& arguments) {
@@ -1180,7 +1181,7 @@ OutputFieldList SchemaLoader::getOutputFields(const peg::ast_node::children_t& f
 
 						if (directiveName == "deprecated")
 						{
-							std::string_view deprecationReason;
+							std::string_view deprecationReason = s_defaultDeprecationReason;
 
 							peg::on_first_child<peg::arguments>(directive,
 								[&deprecationReason](const peg::ast_node& arguments) {
-- 
2.43.0


From 6bd9d777c5a6775250485df461f54f42db6800f4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 40/57] fix: declare enum values with the names which the
 schema uses

The header declared a value whose name is not a safe C++ name unchanged, and
the code which adds it to the schema used the safe name, so that the
generated code did not compile.
---
 src/SchemaGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 0de251b..a09a9df 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -220,7 +220,7 @@ static_assert(graphql::internal::MinorVersion == )cpp"
 				}
 
 				firstValue = false;
-				headerFile << R"cpp(	)cpp" << value.value;
+				headerFile << R"cpp(	)cpp" << value.cppValue;
 			}
 			headerFile << R"cpp(
 };
-- 
2.43.0


From fd7387597e1c8849a2f8a625497057d8695bee90 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 41/57] fix: write default values of type Float with all their
 digits

The generator rounded them to six digits.
---
 src/SchemaGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index a09a9df..2727892 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -37,7 +37,9 @@
 
 #include <cctype>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <regex>
 #include <sstream>
 #include <stdexcept>
@@ -1813,6 +1815,7 @@ std::string Generator::getArgumentDefaultValue(
 			argumentDefaultValue
 				<< padding
 				<< R"cpp(		entry = response::Value(static_cast<response::FloatType>()cpp"
+				<< std::setprecision(std::numeric_limits<response::FloatType>::max_digits10)
 				<< defaultValue.get<response::FloatType>() << R"cpp());
 )cpp";
 			break;
-- 
2.43.0


From 023d180b2993f6a76d87a67813c2bd08857e393d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 42/57] fix: keep descriptions with escape sequences whole in
 the schema generator

---
 src/SchemaLoader.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 1f97a52..36c7d01 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -709,7 +709,7 @@ void SchemaLoader::visitObjectTypeDefinition(const peg::ast_node& objectTypeDefi
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -774,7 +774,7 @@ void SchemaLoader::visitInterfaceTypeDefinition(const peg::ast_node& interfaceTy
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -835,7 +835,7 @@ void SchemaLoader::visitInputObjectTypeDefinition(const peg::ast_node& inputObje
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -895,7 +895,7 @@ void SchemaLoader::visitEnumTypeDefinition(const peg::ast_node& enumTypeDefiniti
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -937,7 +937,7 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 				[&value](const peg::ast_node& description) {
 					if (!description.children.empty())
 					{
-						value.description = description.children.front()->unescaped_view();
+						value.description = description.unescaped_view();
 					}
 				});
 
@@ -1004,7 +1004,7 @@ void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefi
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -1027,7 +1027,7 @@ void SchemaLoader::visitUnionTypeDefinition(const peg::ast_node& unionTypeDefini
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -1080,7 +1080,7 @@ void SchemaLoader::visitDirectiveDefinition(const peg::ast_node& directiveDefini
 		[&directive](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				directive.description = child.children.front()->unescaped_view();
+				directive.description = child.unescaped_view();
 			}
 		});
 
@@ -1166,7 +1166,7 @@ OutputFieldList SchemaLoader::getOutputFields(const peg::ast_node::children_t& f
 			}
 			else if (child->is_type<peg::description>() && !child->children.empty())
 			{
-				field.description = child->children.front()->unescaped_view();
+				field.description = child->unescaped_view();
 			}
 			else if (child->is_type<peg::directives>())
 			{
@@ -1254,7 +1254,7 @@ InputFieldList SchemaLoader::getInputFields(const peg::ast_node::children_t& fie
 			}
 			else if (child->is_type<peg::description>() && !child->children.empty())
 			{
-				field.description = child->children.front()->unescaped_view();
+				field.description = child->unescaped_view();
 			}
 		}
 
-- 
2.43.0


From 0c2d02cb2f5d0ff49ad2fdeaa8c4c59b94486221 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:33:48 +0000
Subject: [PATCH 43/57] fix: use the default value of a nullable argument which
 was left out

---
 include/graphqlservice/GraphQLService.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 069e75a..8de47d4 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -352,6 +352,11 @@ struct ModifiedArgument
 	{
 		try
 		{
+			if (!provided(name, arguments))
+			{
+				return { Type {}, false };
+			}
+
 			return { require(name, arguments), true };
 		}
 		catch (const std::exception&)
@@ -419,6 +424,11 @@ struct ModifiedArgument
 	{
 		try
 		{
+			if (!provided(name, arguments))
+			{
+				return { typename ArgumentTraits<Type, Modifier, Other...>::type {}, false };
+			}
+
 			return { require<Modifier, Other...>(name, arguments), true };
 		}
 		catch (const std::exception&)
@@ -426,6 +436,14 @@ struct ModifiedArgument
 			return { typename ArgumentTraits<Type, Modifier, Other...>::type {}, false };
 		}
 	}
+
+private:
+	// A nullable argument converts to null when there is no value for it, but that does not mean
+	// that it was found.
+	static bool provided(const std::string& name, const response::Value& arguments)
+	{
+		return arguments.find(name) != arguments.get<response::MapType>().cend();
+	}
 };
 
 // Convenient type aliases for testing, generated code won't actually use these. These are also
-- 
2.43.0


From 04301d7dd379767dfb1725cad315c9a103f8de1d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 44/57] fix: keep carriage returns and raw string delimiters in
 the text of a schema

---
 include/GeneratorUtil.h |  5 ++++
 src/GeneratorUtil.cpp   | 29 ++++++++++++++++++++++
 src/SchemaGenerator.cpp | 55 ++++++++++++++++++++++++-----------------
 3 files changed, 66 insertions(+), 23 deletions(-)

diff --git a/include/GeneratorUtil.h b/include/GeneratorUtil.h
index c061fe1..ebf8124 100644
--- a/include/GeneratorUtil.h
+++ b/include/GeneratorUtil.h
@@ -12,6 +12,11 @@
 
 namespace graphql::generator {
 
+// Text which goes between R"delimiter( and )delimiter" in the generated code. The compiler replaces
+// carriage returns in a raw string, and the text might include the end of the raw string, so those
+// become separate literals.
+std::string getRawStringContent(std::string_view text, std::string_view delimiter) noexcept;
+
 // RAII object to help with emitting matching include guard begin and end statements
 class IncludeGuardScope
 {
diff --git a/src/GeneratorUtil.cpp b/src/GeneratorUtil.cpp
index b05acea..4aea560 100644
--- a/src/GeneratorUtil.cpp
+++ b/src/GeneratorUtil.cpp
@@ -7,6 +7,35 @@
 
 namespace graphql::generator {
 
+std::string getRawStringContent(std::string_view text, std::string_view delimiter) noexcept
+{
+	const std::string prefix = "R\"" + std::string { delimiter } + "(";
+	const std::string suffix = ")" + std::string { delimiter } + "\"";
+	std::string content;
+
+	for (size_t pos = 0; pos < text.size();)
+	{
+		if (text[pos] == '\r')
+		{
+			content.append(suffix).append(" \"\\r\" ").append(prefix);
+			++pos;
+		}
+		else if (text.compare(pos, suffix.size(), suffix) == 0)
+		{
+			content.push_back(text[pos]);
+			content.append(suffix).append(" ").append(prefix);
+			++pos;
+		}
+		else
+		{
+			content.push_back(text[pos]);
+			++pos;
+		}
+	}
+
+	return content;
+}
+
 IncludeGuardScope::IncludeGuardScope(
 	std::ostream& outputFile, std::string_view headerFileName) noexcept
 	: _outputFile(outputFile)
diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 2727892..5ebccb7 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -886,7 +886,7 @@ Operations::Operations()cpp";
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << scalarType.description;
+				sourceFile << getRawStringContent(scalarType.description, "md");
 			}
 
 			sourceFile << R"cpp()md"));
@@ -904,7 +904,7 @@ Operations::Operations()cpp";
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << enumType.description;
+				sourceFile << getRawStringContent(enumType.description, "md");
 			}
 
 			sourceFile << R"cpp()md"sv);
@@ -924,7 +924,7 @@ Operations::Operations()cpp";
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << inputType.description;
+				sourceFile << getRawStringContent(inputType.description, "md");
 			}
 
 			sourceFile << R"cpp()md"sv);
@@ -945,7 +945,7 @@ Operations::Operations()cpp";
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << unionType.description;
+				sourceFile << getRawStringContent(unionType.description, "md");
 			}
 
 			sourceFile << R"cpp()md"sv);
@@ -966,7 +966,7 @@ Operations::Operations()cpp";
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << interfaceType.description;
+				sourceFile << getRawStringContent(interfaceType.description, "md");
 			}
 
 			sourceFile << R"cpp()md"sv);
@@ -987,7 +987,7 @@ Operations::Operations()cpp";
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << objectType.description;
+				sourceFile << getRawStringContent(objectType.description, "md");
 			}
 
 			sourceFile << R"cpp()md");
@@ -1027,7 +1027,7 @@ Operations::Operations()cpp";
 
 					if (!_options.noIntrospection)
 					{
-						sourceFile << enumValue.description;
+						sourceFile << getRawStringContent(enumValue.description, "md");
 					}
 
 					sourceFile << R"cpp()md"sv, )cpp";
@@ -1035,7 +1035,8 @@ Operations::Operations()cpp";
 					if (enumValue.deprecationReason)
 					{
 						sourceFile << R"cpp(std::make_optional(R"md()cpp"
-								   << *enumValue.deprecationReason << R"cpp()md"sv))cpp";
+								   << getRawStringContent(*enumValue.deprecationReason, "md")
+								   << R"cpp()md"sv))cpp";
 					}
 					else
 					{
@@ -1079,12 +1080,13 @@ Operations::Operations()cpp";
 
 					if (!_options.noIntrospection)
 					{
-						sourceFile << inputField.description;
+						sourceFile << getRawStringContent(inputField.description, "md");
 					}
 
 					sourceFile << R"cpp()md"sv, )cpp"
 							   << getIntrospectionType(inputField.type, inputField.modifiers)
-							   << R"cpp(, R"gql()cpp" << inputField.defaultValueString
+							   << R"cpp(, R"gql()cpp"
+							   << getRawStringContent(inputField.defaultValueString, "gql")
 							   << R"cpp()gql"sv))cpp";
 				}
 
@@ -1156,7 +1158,7 @@ Operations::Operations()cpp";
 
 					if (!_options.noIntrospection)
 					{
-						sourceFile << interfaceField.description;
+						sourceFile << getRawStringContent(interfaceField.description, "md");
 					}
 
 					sourceFile << R"cpp()md"sv, )cpp";
@@ -1164,7 +1166,8 @@ Operations::Operations()cpp";
 					if (interfaceField.deprecationReason)
 					{
 						sourceFile << R"cpp(std::make_optional(R"md()cpp"
-								   << *interfaceField.deprecationReason << R"cpp()md"sv))cpp";
+								   << getRawStringContent(*interfaceField.deprecationReason, "md")
+								   << R"cpp()md"sv))cpp";
 					}
 					else
 					{
@@ -1196,12 +1199,13 @@ Operations::Operations()cpp";
 
 							if (!_options.noIntrospection)
 							{
-								sourceFile << argument.description;
+								sourceFile << getRawStringContent(argument.description, "md");
 							}
 
 							sourceFile << R"cpp()md"sv, )cpp"
 									   << getIntrospectionType(argument.type, argument.modifiers)
-									   << R"cpp(, R"gql()cpp" << argument.defaultValueString
+									   << R"cpp(, R"gql()cpp"
+									   << getRawStringContent(argument.defaultValueString, "gql")
 									   << R"cpp()gql"sv))cpp";
 						}
 
@@ -1249,7 +1253,7 @@ Operations::Operations()cpp";
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << directive.description;
+				sourceFile << getRawStringContent(directive.description, "md");
 			}
 
 			sourceFile << R"cpp()md"sv, {)cpp";
@@ -1301,12 +1305,13 @@ Operations::Operations()cpp";
 
 					if (!_options.noIntrospection)
 					{
-						sourceFile << argument.description;
+						sourceFile << getRawStringContent(argument.description, "md");
 					}
 
 					sourceFile << R"cpp()md"sv, )cpp"
 							   << getIntrospectionType(argument.type, argument.modifiers)
-							   << R"cpp(, R"gql()cpp" << argument.defaultValueString
+							   << R"cpp(, R"gql()cpp"
+							   << getRawStringContent(argument.defaultValueString, "gql")
 							   << R"cpp()gql"sv))cpp";
 				}
 
@@ -1656,14 +1661,15 @@ void Generator::outputObjectIntrospection(
 
 			if (!_options.noIntrospection)
 			{
-				sourceFile << objectField.description;
+				sourceFile << getRawStringContent(objectField.description, "md");
 			}
 
 			sourceFile << R"cpp()md"sv, )cpp";
 
 			if (objectField.deprecationReason)
 			{
-				sourceFile << R"cpp(std::make_optional(R"md()cpp" << *objectField.deprecationReason
+				sourceFile << R"cpp(std::make_optional(R"md()cpp"
+						   << getRawStringContent(*objectField.deprecationReason, "md")
 						   << R"cpp()md"sv))cpp";
 			}
 			else
@@ -1695,12 +1701,13 @@ void Generator::outputObjectIntrospection(
 
 					if (!_options.noIntrospection)
 					{
-						sourceFile << argument.description;
+						sourceFile << getRawStringContent(argument.description, "md");
 					}
 
 					sourceFile << R"cpp()md"sv, )cpp"
 							   << getIntrospectionType(argument.type, argument.modifiers)
-							   << R"cpp(, R"gql()cpp" << argument.defaultValueString
+							   << R"cpp(, R"gql()cpp"
+							   << getRawStringContent(argument.defaultValueString, "gql")
 							   << R"cpp()gql"sv))cpp";
 				}
 
@@ -1778,7 +1785,8 @@ std::string Generator::getArgumentDefaultValue(
 		{
 			argumentDefaultValue << padding
 								 << R"cpp(		entry = response::Value(std::string(R"gql()cpp"
-								 << defaultValue.get<response::StringType>() << R"cpp()gql"));
+								 << getRawStringContent(defaultValue.get<response::StringType>(), "gql")
+								 << R"cpp()gql"));
 )cpp";
 			break;
 		}
@@ -1826,7 +1834,8 @@ std::string Generator::getArgumentDefaultValue(
 			argumentDefaultValue
 				<< padding << R"cpp(		entry = response::Value(response::Type::EnumValue);
 		entry.set<response::StringType>(R"gql()cpp"
-				<< defaultValue.get<response::StringType>() << R"cpp()gql");
+				<< getRawStringContent(defaultValue.get<response::StringType>(), "gql")
+				<< R"cpp()gql");
 )cpp";
 			break;
 		}
-- 
2.43.0


From 2ff93338d94d47c32e8a2859792500bb5055cf36 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 45/57] fix: refuse schemas which define a name more than once

---
 include/SchemaLoader.h |  3 ++
 src/SchemaLoader.cpp   | 98 ++++++++++++++++++++++++++++++++++++------
 2 files changed, 88 insertions(+), 13 deletions(-)

diff --git a/include/SchemaLoader.h b/include/SchemaLoader.h
index 1c5d1c6..e6a4bfe 100644
--- a/include/SchemaLoader.h
+++ b/include/SchemaLoader.h
@@ -273,6 +273,9 @@ private:
 	void visitUnionTypeExtension(const peg::ast_node& unionTypeExtension);
 	void visitInterfaceTypeDefinition(const peg::ast_node& interfaceTypeDefinition);
 	void visitInterfaceTypeExtension(const peg::ast_node& interfaceTypeExtension);
+	[[noreturn]] static void throwDuplicate(std::string_view what, std::string_view name,
+		const std::optional<tao::graphqlpeg::position>& position);
+	void addSchemaType(std::string_view name, SchemaType type, const peg::ast_node& definition);
 	[[noreturn]] static void throwUnknownExtension(
 		std::string_view name, const peg::ast_node& extension);
 	void visitObjectTypeDefinition(const peg::ast_node& objectTypeDefinition);
diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 36c7d01..fc6c3f4 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -207,6 +207,19 @@ void SchemaLoader::validateSchema()
 		}
 	}
 
+	for (const auto& entry : _enumTypes)
+	{
+		std::unordered_set<std::string_view> names;
+
+		for (const auto& value : entry.values)
+		{
+			if (!names.insert(value.value).second)
+			{
+				throwDuplicate("enum value"sv, value.value, value.position);
+			}
+		}
+	}
+
 	// Fixup all of the fieldType members.
 	for (auto& entry : _inputTypes)
 	{
@@ -261,8 +274,15 @@ void SchemaLoader::validateSchema()
 		else
 		{
 			// Validate that all of the operation types exist and that query is defined.
+			std::unordered_set<std::string_view> operations;
+
 			for (const auto& operation : _operationTypes)
 			{
+				if (!operations.insert(operation.operation).second)
+				{
+					throwDuplicate("operation"sv, operation.operation, std::nullopt);
+				}
+
 				if (_objectNames.find(operation.type) == _objectNames.cend())
 				{
 					std::ostringstream error;
@@ -324,8 +344,15 @@ void SchemaLoader::validateSchema()
 	// Validate the interfaces implemented by the object types.
 	for (const auto& entry : _objectTypes)
 	{
+		std::unordered_set<std::string_view> interfaces;
+
 		for (const auto& interfaceName : entry.interfaces)
 		{
+			if (!interfaces.insert(interfaceName).second)
+			{
+				throwDuplicate("interface"sv, interfaceName, _typePositions.at(entry.type));
+			}
+
 			if (_interfaceNames.find(interfaceName) == _interfaceNames.cend())
 			{
 				std::ostringstream error;
@@ -349,8 +376,15 @@ void SchemaLoader::validateSchema()
 	// the list of matching types for the objects.
 	for (const auto& entry : _unionTypes)
 	{
+		std::unordered_set<std::string_view> options;
+
 		for (const auto& objectName : entry.options)
 		{
+			if (!options.insert(objectName).second)
+			{
+				throwDuplicate("union member"sv, objectName, _typePositions.at(entry.type));
+			}
+
 			auto itr = _objectNames.find(objectName);
 
 			if (itr == _objectNames.cend())
@@ -378,8 +412,15 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 	const std::optional<std::unordered_set<std::string_view>>& interfaceFields,
 	const std::optional<std::string_view>& accessor)
 {
+	std::unordered_set<std::string_view> names;
+
 	for (auto& entry : fields)
 	{
+		if (!names.insert(entry.name).second)
+		{
+			throwDuplicate("field"sv, entry.name, entry.position);
+		}
+
 		if (interfaceFields)
 		{
 			entry.interfaceField = false;
@@ -461,8 +502,15 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 
 void SchemaLoader::fixupInputFieldList(InputFieldList& fields)
 {
+	std::unordered_set<std::string_view> names;
+
 	for (auto& entry : fields)
 	{
+		if (!names.insert(entry.name).second)
+		{
+			throwDuplicate("argument"sv, entry.name, entry.position);
+		}
+
 		if (s_builtinTypes.find(entry.type) != s_builtinTypes.cend())
 		{
 			continue;
@@ -695,6 +743,32 @@ void SchemaLoader::throwUnknownExtension(std::string_view name, const peg::ast_n
 	throw std::runtime_error(error.str());
 }
 
+void SchemaLoader::throwDuplicate(
+	std::string_view what, std::string_view name, const std::optional<tao::graphqlpeg::position>& position)
+{
+	std::ostringstream error;
+
+	error << "Duplicate " << what << ": " << name;
+
+	if (position)
+	{
+		error << " line: " << position->line << " column: " << position->column;
+	}
+
+	throw std::runtime_error(error.str());
+}
+
+void SchemaLoader::addSchemaType(
+	std::string_view name, SchemaType type, const peg::ast_node& definition)
+{
+	if (!_schemaTypes.emplace(name, type).second)
+	{
+		throwDuplicate("type"sv, name, definition.begin());
+	}
+
+	_typePositions.emplace(name, definition.begin());
+}
+
 void SchemaLoader::visitObjectTypeDefinition(const peg::ast_node& objectTypeDefinition)
 {
 	std::string_view name;
@@ -713,8 +787,7 @@ void SchemaLoader::visitObjectTypeDefinition(const peg::ast_node& objectTypeDefi
 			}
 		});
 
-	_schemaTypes[name] = SchemaType::Object;
-	_typePositions.emplace(name, objectTypeDefinition.begin());
+	addSchemaType(name, SchemaType::Object, objectTypeDefinition);
 	_objectNames[name] = _objectTypes.size();
 
 	auto cppName = getSafeCppName(name);
@@ -778,8 +851,7 @@ void SchemaLoader::visitInterfaceTypeDefinition(const peg::ast_node& interfaceTy
 			}
 		});
 
-	_schemaTypes[name] = SchemaType::Interface;
-	_typePositions.emplace(name, interfaceTypeDefinition.begin());
+	addSchemaType(name, SchemaType::Interface, interfaceTypeDefinition);
 	_interfaceNames[name] = _interfaceTypes.size();
 
 	auto cppName = getSafeCppName(name);
@@ -839,8 +911,7 @@ void SchemaLoader::visitInputObjectTypeDefinition(const peg::ast_node& inputObje
 			}
 		});
 
-	_schemaTypes[name] = SchemaType::Input;
-	_typePositions.emplace(name, inputObjectTypeDefinition.begin());
+	addSchemaType(name, SchemaType::Input, inputObjectTypeDefinition);
 	_inputNames[name] = _inputTypes.size();
 
 	auto cppName = getSafeCppName(name);
@@ -899,8 +970,7 @@ void SchemaLoader::visitEnumTypeDefinition(const peg::ast_node& enumTypeDefiniti
 			}
 		});
 
-	_schemaTypes[name] = SchemaType::Enum;
-	_typePositions.emplace(name, enumTypeDefinition.begin());
+	addSchemaType(name, SchemaType::Enum, enumTypeDefinition);
 	_enumNames[name] = _enumTypes.size();
 
 	auto cppName = getSafeCppName(name);
@@ -1008,8 +1078,7 @@ void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefi
 			}
 		});
 
-	_schemaTypes[name] = SchemaType::Scalar;
-	_typePositions.emplace(name, scalarTypeDefinition.begin());
+	addSchemaType(name, SchemaType::Scalar, scalarTypeDefinition);
 	_scalarNames[name] = _scalarTypes.size();
 	_scalarTypes.push_back({ name, description });
 }
@@ -1031,8 +1100,7 @@ void SchemaLoader::visitUnionTypeDefinition(const peg::ast_node& unionTypeDefini
 			}
 		});
 
-	_schemaTypes[name] = SchemaType::Union;
-	_typePositions.emplace(name, unionTypeDefinition.begin());
+	addSchemaType(name, SchemaType::Union, unionTypeDefinition);
 	_unionNames[name] = _unionTypes.size();
 
 	auto cppName = getSafeCppName(name);
@@ -1100,7 +1168,11 @@ void SchemaLoader::visitDirectiveDefinition(const peg::ast_node& directiveDefini
 			}
 		});
 
-	_directivePositions.emplace(directive.name, directiveDefinition.begin());
+	if (!_directivePositions.emplace(directive.name, directiveDefinition.begin()).second)
+	{
+		throwDuplicate("directive"sv, directive.name, directiveDefinition.begin());
+	}
+
 	_directives.push_back(std::move(directive));
 }
 
-- 
2.43.0


From c121243b7c775a891d7bb8539cf9b2927ed10027 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 46/57] fix: refuse objects which lack a field of an interface

---
 src/SchemaLoader.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index fc6c3f4..39dd01f 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -369,6 +369,25 @@ void SchemaLoader::validateSchema()
 
 				throw std::runtime_error(error.str());
 			}
+
+			for (const auto& field : _interfaceTypes[_interfaceNames.at(interfaceName)].fields)
+			{
+				if (std::none_of(entry.fields.cbegin(),
+						entry.fields.cend(),
+						[&field](const OutputField& objectField) noexcept {
+							return objectField.name == field.name;
+						}))
+				{
+					std::ostringstream error;
+					const auto& position = _typePositions.at(entry.type);
+
+					error << "Missing field: " << field.name << " of interface: " << interfaceName
+						  << " implemented by: " << entry.type << " line: " << position.line
+						  << " column: " << position.column;
+
+					throw std::runtime_error(error.str());
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From f51f9e812dd432030685318d7607ee8e9051e50f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 47/57] fix: name the operation which a request does not have

---
 src/RequestLoader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index 73c7b90..d8ca76e 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -691,9 +691,9 @@ void RequestLoader::findOperation()
 
 		message << "Missing operation";
 
-		if (!_operationName.empty())
+		if (!_requestOptions.operationName.empty())
 		{
-			message << " name: " << _operationName;
+			message << " name: " << _requestOptions.operationName;
 		}
 
 		throw service::schema_exception { { message.str() } };
-- 
2.43.0


From 79592fc8182a2431b5c27a205bb9edc4b75eb8fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 48/57] fix: declare and serialize the variables of a client
 with their types

---
 include/ClientGenerator.h |  1 +
 include/RequestLoader.h   |  2 ++
 src/ClientGenerator.cpp   | 22 ++++++++++++++++++----
 src/RequestLoader.cpp     |  9 ++++++++-
 4 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/include/ClientGenerator.h b/include/ClientGenerator.h
index 36def4f..5fd5941 100644
--- a/include/ClientGenerator.h
+++ b/include/ClientGenerator.h
@@ -41,6 +41,7 @@ private:
 	const std::string& getClientNamespace() const noexcept;
 	const std::string& getRequestNamespace() const noexcept;
 	const std::string& getFullNamespace() const noexcept;
+	std::string getVariableCppType(const RequestSchemaType& type) const noexcept;
 	std::string getResponseFieldCppType(
 		const ResponseField& responseField, std::string_view currentScope = {}) const noexcept;
 
diff --git a/include/RequestLoader.h b/include/RequestLoader.h
index 0f1fef6..9eca41b 100644
--- a/include/RequestLoader.h
+++ b/include/RequestLoader.h
@@ -80,6 +80,8 @@ public:
 	const RequestSchemaTypeList& getReferencedEnums() const noexcept;
 
 	std::string getInputCppType(const RequestSchemaType& wrappedInputType) const noexcept;
+	std::string getInputCppType(
+		const RequestSchemaType& inputType, const TypeModifierStack& modifiers) const noexcept;
 	static std::string getOutputCppType(
 		std::string_view outputCppType, const TypeModifierStack& modifiers) noexcept;
 
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 5c69973..3eba2e5 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -138,6 +138,19 @@ const std::string& Generator::getFullNamespace() const noexcept
 	return s_namespace;
 }
 
+std::string Generator::getVariableCppType(const RequestSchemaType& type) const noexcept
+{
+	std::string result { _schemaLoader.getCppType(type->name()) };
+
+	// Only the input object types are declared inside of the Variables struct.
+	if (type->kind() == introspection::TypeKind::INPUT_OBJECT)
+	{
+		result = R"cpp(Variables::)cpp" + result;
+	}
+
+	return result;
+}
+
 std::string Generator::getResponseFieldCppType(
 	const ResponseField& responseField, std::string_view currentScope /* = {} */) const noexcept
 {
@@ -279,7 +292,8 @@ static_assert(graphql::internal::MinorVersion == )cpp"
 
 		for (const auto& variable : variables)
 		{
-			headerFile << R"cpp(	)cpp" << _schemaLoader.getCppType(variable.type->name())
+			headerFile << R"cpp(	)cpp"
+					   << _requestLoader.getInputCppType(variable.type, variable.modifiers)
 					   << R"cpp( )cpp" << variable.cppName << R"cpp( {};
 )cpp";
 		}
@@ -544,7 +558,7 @@ response::Value ModifiedVariable<Variables::)cpp"
 
 				sourceFile << R"cpp(	result.emplace_back(R"js()cpp" << inputField->name()
 						   << R"cpp()js"s, ModifiedVariable<)cpp"
-						   << _schemaLoader.getCppType(type->name()) << R"cpp(>::serialize)cpp"
+						   << getVariableCppType(type) << R"cpp(>::serialize)cpp"
 						   << getTypeModifierList(modifiers) << R"cpp((std::move(inputValue.)cpp"
 						   << SchemaLoader::getSafeCppName(inputField->name()) << R"cpp()));
 )cpp";
@@ -625,8 +639,8 @@ response::Value serializeVariables(Variables&& variables)
 		for (const auto& variable : variables)
 		{
 			sourceFile << R"cpp(	result.emplace_back(R"js()cpp" << variable.name
-					   << R"cpp()js"s, ModifiedVariable<Variables::)cpp"
-					   << _schemaLoader.getCppType(variable.type->name()) << R"cpp(>::serialize)cpp"
+					   << R"cpp()js"s, ModifiedVariable<)cpp"
+					   << getVariableCppType(variable.type) << R"cpp(>::serialize)cpp"
 					   << getTypeModifierList(variable.modifiers)
 					   << R"cpp((std::move(variables.)cpp" << variable.cppName << R"cpp()));
 )cpp";
diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index d8ca76e..0931c3f 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -137,10 +137,17 @@ const RequestSchemaTypeList& RequestLoader::getReferencedEnums() const noexcept
 }
 
 std::string RequestLoader::getInputCppType(const RequestSchemaType& wrappedInputType) const noexcept
+{
+	auto [inputType, modifiers] = unwrapSchemaType(RequestSchemaType { wrappedInputType });
+
+	return getInputCppType(inputType, modifiers);
+}
+
+std::string RequestLoader::getInputCppType(
+	const RequestSchemaType& inputType, const TypeModifierStack& modifiers) const noexcept
 {
 	size_t templateCount = 0;
 	std::ostringstream cppType;
-	auto [inputType, modifiers] = unwrapSchemaType(RequestSchemaType { wrappedInputType });
 
 	for (auto modifier : modifiers)
 	{
-- 
2.43.0


From b6b5128ad4e86be260261a4d0b960d1c197fe4f6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 49/57] fix: declare the input types which a list or non-null
 field depends on first

---
 src/RequestLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index 0931c3f..7f27f4c 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -864,7 +864,7 @@ void RequestLoader::reorderInputTypeDependencies() noexcept
 			std::for_each(fields.begin(),
 				fields.end(),
 				[&result](const std::shared_ptr<const schema::InputValue>& field) noexcept {
-					const auto fieldType = field->type().lock();
+					const auto fieldType = unwrapSchemaType(field->type().lock()).first;
 
 					if (fieldType->kind() == introspection::TypeKind::INPUT_OBJECT)
 					{
-- 
2.43.0


From eb4fb04154006f6253b72cbca704034c09bc4c56 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 50/57] fix: use the name of an enum value in the documents of
 a client

---
 src/ClientGenerator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 3eba2e5..bdec059 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -498,8 +498,7 @@ using namespace )cpp"
 		for (const auto& enumValue : enumValues)
 		{
 			firstValue = false;
-			sourceFile << R"cpp(	")cpp" << SchemaLoader::getSafeCppName(enumValue->name())
-					   << R"cpp("sv,
+			sourceFile << R"cpp(	")cpp" << enumValue->name() << R"cpp("sv,
 )cpp";
 		}
 
-- 
2.43.0


From acfd018836b1711963d03d19e044459f28aebf6b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 51/57] fix: keep carriage returns and raw string delimiters in
 the text of a request

---
 src/ClientGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index bdec059..f7f6dc8 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -708,7 +708,7 @@ const std::string& GetRequestText() noexcept
 
 	for (std::string line; std::getline(request, line);)
 	{
-		sourceFile << R"cpp(		)cpp" << line << std::endl;
+		sourceFile << R"cpp(		)cpp" << getRawStringContent(line, "gql") << std::endl;
 	}
 
 	sourceFile << R"cpp(	)gql"s;
-- 
2.43.0


From 1dbb96e30d8a40ee8699a78edfa9260c108578b2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 52/57] fix: merge the selections of a repeated field in a
 client

---
 include/RequestLoader.h |  2 +-
 src/RequestLoader.cpp   | 49 ++++++++++++++++++++++-------------------
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/include/RequestLoader.h b/include/RequestLoader.h
index 9eca41b..763a671 100644
--- a/include/RequestLoader.h
+++ b/include/RequestLoader.h
@@ -125,13 +125,13 @@ private:
 		void visitInlineFragment(const peg::ast_node& inlineFragment);
 
 		void mergeFragmentFields(ResponseFieldList&& fragmentFields) noexcept;
+		static void mergeField(ResponseFieldList& fields, ResponseField&& field) noexcept;
 
 		const SchemaLoader& _schemaLoader;
 		const FragmentDefinitionMap& _fragments;
 		const std::shared_ptr<schema::Schema>& _schema;
 		const RequestSchemaType& _type;
 
-		internal::string_view_set _names;
 		ResponseFieldList _fields;
 	};
 
diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index 7f27f4c..8cdeeba 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -1029,14 +1029,6 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 		alias = name;
 	}
 
-	if (!_names.emplace(alias).second)
-	{
-		// Skip fields which map to the same response name as a field we've already visited.
-		// Validation should handle merging multiple references to the same field or to
-		// compatible fields.
-		return;
-	}
-
 	ResponseField responseField;
 
 	responseField.name = alias;
@@ -1047,7 +1039,7 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 	if (name == R"gql(__typename)gql"sv)
 	{
 		responseField.type = _schema->LookupType("String"sv);
-		_fields.push_back(std::move(responseField));
+		mergeField(_fields, std::move(responseField));
 		return;
 	}
 
@@ -1121,7 +1113,7 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 		}
 	}
 
-	_fields.push_back(std::move(responseField));
+	mergeField(_fields, std::move(responseField));
 }
 
 void RequestLoader::SelectionVisitor::visitFragmentSpread(const peg::ast_node& fragmentSpread)
@@ -1175,20 +1167,31 @@ void RequestLoader::SelectionVisitor::visitInlineFragment(const peg::ast_node& i
 void RequestLoader::SelectionVisitor::mergeFragmentFields(
 	ResponseFieldList&& fragmentFields) noexcept
 {
-	fragmentFields.erase(std::remove_if(fragmentFields.begin(),
-							 fragmentFields.end(),
-							 [this](const ResponseField& fragmentField) noexcept {
-								 return !_names.emplace(fragmentField.name).second;
-							 }),
-		fragmentFields.cend());
-
-	if (!fragmentFields.empty())
+	for (auto& fragmentField : fragmentFields)
 	{
-		_fields.reserve(_fields.size() + fragmentFields.size());
-		for (auto& fragmentField : fragmentFields)
-		{
-			_fields.push_back(std::move(fragmentField));
-		}
+		mergeField(_fields, std::move(fragmentField));
+	}
+}
+
+void RequestLoader::SelectionVisitor::mergeField(
+	ResponseFieldList& fields, ResponseField&& field) noexcept
+{
+	const auto itr =
+		std::find_if(fields.begin(), fields.end(), [&field](const ResponseField& entry) noexcept {
+			return entry.name == field.name;
+		});
+
+	if (itr == fields.end())
+	{
+		fields.push_back(std::move(field));
+		return;
+	}
+
+	// Validation makes sure that fields with the same response name are compatible, but each of
+	// them may select other fields of a composite type.
+	for (auto& child : field.children)
+	{
+		mergeField(itr->children, std::move(child));
 	}
 }
 
-- 
2.43.0


From 8fe66fa7da8329ffe0a9b1de33dfa1dbe54e3d7b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 53/57] fix: name the struct of a field apart from the one it
 is nested in

---
 include/RequestLoader.h |  3 +++
 src/ClientGenerator.cpp |  4 ++--
 src/RequestLoader.cpp   | 33 +++++++++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/include/RequestLoader.h b/include/RequestLoader.h
index 763a671..82f4e75 100644
--- a/include/RequestLoader.h
+++ b/include/RequestLoader.h
@@ -36,6 +36,7 @@ struct ResponseField
 	TypeModifierStack modifiers;
 	std::string_view name;
 	std::string_view cppName;
+	std::string cppStruct; // only the composite types have a struct of their own
 	std::optional<tao::graphqlpeg::position> position;
 	ResponseFieldList children;
 };
@@ -99,6 +100,8 @@ private:
 
 	void findOperation();
 	void collectFragments() noexcept;
+	static void nameResponseStructs(
+		ResponseFieldList& fields, std::string_view outerStruct) noexcept;
 	void collectVariables() noexcept;
 	void collectInputTypes(const RequestSchemaType& variableType) noexcept;
 	void reorderInputTypeDependencies() noexcept;
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index f7f6dc8..17eab04 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -169,8 +169,8 @@ std::string Generator::getResponseFieldCppType(
 				oss << currentScope << R"cpp(::)cpp";
 			}
 
-			oss << responseField.cppName << R"cpp(_)cpp" << responseField.type->name();
-			result = SchemaLoader::getSafeCppName(oss.str());
+			oss << responseField.cppStruct;
+			result = oss.str();
 			break;
 		}
 
diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index 8cdeeba..e5ca619 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -59,6 +59,7 @@ RequestLoader::RequestLoader(RequestOptions&& requestOptions, const SchemaLoader
 
 	visitor.visit(*selection);
 	_responseType.fields = visitor.getFields();
+	nameResponseStructs(_responseType.fields, {});
 
 	collectVariables();
 
@@ -744,6 +745,38 @@ void RequestLoader::collectFragments() noexcept
 	});
 }
 
+void RequestLoader::nameResponseStructs(
+	ResponseFieldList& fields, std::string_view outerStruct) noexcept
+{
+	for (auto& field : fields)
+	{
+		switch (field.type->kind())
+		{
+			case introspection::TypeKind::OBJECT:
+			case introspection::TypeKind::INTERFACE:
+			case introspection::TypeKind::UNION:
+			{
+				std::ostringstream oss;
+
+				oss << field.cppName << '_' << field.type->name();
+				field.cppStruct = SchemaLoader::getSafeCppName(oss.str());
+
+				// A member of a struct can't have the same name as the struct.
+				if (field.cppStruct == outerStruct)
+				{
+					field.cppStruct += '_';
+				}
+
+				nameResponseStructs(field.children, field.cppStruct);
+				break;
+			}
+
+			default:
+				break;
+		}
+	}
+}
+
 void RequestLoader::collectVariables() noexcept
 {
 	peg::for_each_child<peg::variable>(*_operation,
-- 
2.43.0


From eed17970ba9d1b625062f823a6db21764348f932 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:31:29 +0000
Subject: [PATCH 54/57] fix: the schema of an introspection response is never
 null

---
 src/RequestLoader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index e5ca619..64562a5 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -1080,12 +1080,12 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 	{
 		if (name == R"gql(__schema)gql"sv)
 		{
-			responseField.type = _schema->LookupType("__Schema"sv);
+			responseField.type = _schema->WrapType(introspection::TypeKind::NON_NULL,
+				_schema->LookupType("__Schema"sv));
 		}
 		else if (name == R"gql(__type)gql"sv)
 		{
 			responseField.type = _schema->LookupType("__Type"sv);
-			responseField.modifiers = { service::TypeModifier::Nullable };
 		}
 	}
 
-- 
2.43.0


From d42b809b7ac912e93929a64046179b0f238c0290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 55/57] fix: validate one request at a time, the validation
 visitor is shared

---
 include/graphqlservice/GraphQLService.h | 1 +
 src/GraphQLService.cpp                  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 8de47d4..a5f29dd 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -1004,6 +1004,7 @@ private:
 		const std::string& operationName, response::Value&& variables) const;
 
 	const TypeMap _operations;
+	mutable std::mutex _validationMutex;
 	std::unique_ptr<ValidateExecutableVisitor> _validation;
 	internal::sorted_map<SubscriptionKey, std::shared_ptr<SubscriptionData>> _subscriptions;
 	internal::sorted_map<SubscriptionName, internal::sorted_set<SubscriptionKey>> _listeners;
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index fa9a2da..0cdf897 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1709,6 +1709,9 @@ std::list<schema_error> Request::validate(peg::ast& query) const
 
 	if (!query.validated)
 	{
+		// The visitor is shared by all of the requests, which may come from multiple threads.
+		std::lock_guard lock(_validationMutex);
+
 		_validation->visit(*query.root);
 		errors = _validation->getStructuredErrors();
 		query.validated = errors.empty();
-- 
2.43.0


From 46ad5236d74930197f816b93c49cbf640fb04f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 56/57] fix: decode string values when parsing, so threads can
 share an AST

---
 src/SyntaxTree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index 80db6bf..9bb74db 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -241,6 +241,11 @@ struct ast_selector<block_quote_character> : std::true_type
 template <>
 struct ast_selector<string_value> : std::true_type
 {
+	static void transform(std::unique_ptr<ast_node>& n)
+	{
+		// Decode it now, so threads which share the same AST do not race to do it later.
+		static_cast<void>(n->unescaped_view());
+	}
 };
 
 template <>
-- 
2.43.0


From eaf1f5f33d79ae15b3bc2717335ae8b67657502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:47 +0000
Subject: [PATCH 57/57] fix: the value of a block string has no common
 indentation and no blank lines at its ends

---
 src/SyntaxTree.cpp | 76 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 75 insertions(+), 1 deletion(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index 9bb74db..7dd194f 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -8,10 +8,14 @@
 
 #include <tao/pegtl/contrib/unescape.hpp>
 
+#include <algorithm>
 #include <functional>
+#include <iterator>
 #include <memory>
 #include <numeric>
+#include <string>
 #include <tuple>
+#include <vector>
 
 using namespace std::literals;
 
@@ -43,11 +47,81 @@ void ast_node::unescaped_view(std::string_view unescaped) noexcept
 	_unescaped = std::make_unique<unescaped_t>(unescaped);
 }
 
+// http://spec.graphql.org/June2018/#BlockStringValue()
+static std::string blockStringValue(std::string_view rawValue)
+{
+	constexpr auto whitespace = " \t"sv;
+	std::vector<std::string_view> lines;
+
+	for (;;)
+	{
+		const auto end = rawValue.find_first_of("\r\n"sv);
+
+		lines.push_back(rawValue.substr(0, end));
+
+		if (end == std::string_view::npos)
+		{
+			break;
+		}
+
+		rawValue.remove_prefix(end + (rawValue.substr(end, 2) == "\r\n"sv ? 2 : 1));
+	}
+
+	// Remove the common indentation from every line except the first.
+	auto commonIndent = std::string_view::npos;
+
+	for (size_t i = 1; i < lines.size(); ++i)
+	{
+		commonIndent = std::min(commonIndent, lines[i].find_first_not_of(whitespace));
+	}
+
+	if (commonIndent != std::string_view::npos)
+	{
+		for (size_t i = 1; i < lines.size(); ++i)
+		{
+			lines[i].remove_prefix(std::min(commonIndent, lines[i].size()));
+		}
+	}
+
+	// Trim the blank lines at the beginning and the end.
+	const auto isBlank = [whitespace](std::string_view line) noexcept {
+		return line.find_first_not_of(whitespace) == std::string_view::npos;
+	};
+	const auto itrFirst = std::find_if_not(lines.cbegin(), lines.cend(), isBlank);
+	const auto itrLast =
+		std::find_if_not(lines.crbegin(), std::make_reverse_iterator(itrFirst), isBlank).base();
+	std::string formatted;
+
+	for (auto itr = itrFirst; itr != itrLast; ++itr)
+	{
+		if (itr != itrFirst)
+		{
+			formatted.append(1, '\n');
+		}
+
+		formatted.append(*itr);
+	}
+
+	return formatted;
+}
+
 std::string_view ast_node::unescaped_view() const
 {
 	if (!_unescaped)
 	{
-		if (children.size() > 1)
+		if (!children.empty() && string_view().substr(0, 3) == R"bq(""")bq"sv)
+		{
+			std::string joined;
+
+			for (const auto& child : children)
+			{
+				joined.append(child->unescaped_view());
+			}
+
+			const_cast<ast_node*>(this)->_unescaped =
+				std::make_unique<unescaped_t>(blockStringValue(joined));
+		}
+		else if (children.size() > 1)
 		{
 			std::string joined;
 
-- 
2.43.0

