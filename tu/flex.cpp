// The Flex-compatible lexer class needs macros of generated code.
#define WITH_BISON_LOCATIONS
#define yytext text()
#include <reflex/flexlexer.h>
#include <reflex/matcher.h>
#include <reflex/boostmatcher.h>
template class reflex::FlexLexer<reflex::Matcher>;
template class reflex::FlexLexer<reflex::BoostMatcher>;
