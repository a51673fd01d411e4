// reference tokenizer of Quake script text (independent of common/parser.cc)
#pragma once
#include <common/parser.hh>
#include <cstring>
#include <string>
namespace ref
{
struct Tok
{
    int kind; // 0 no token, 1 token, 2 refused
    std::string text;
    bool quoted = false;
    size_t line = 0;
    bool operator==(const Tok &o) const
    {
        return kind == o.kind && (kind != 1 || (text == o.text && quoted == o.quoted)) && (kind == 2 || line == o.line);
    }
};
struct Lexer
{
    std::string s;
    size_t p = 0, line = 1;
    char at(size_t i) const { return i < s.size() ? s[i] : 0; }
    Tok next(int flags)
    {
        Lexer save = *this;
        Tok t = next_(flags & ~PARSE_PEEK);
        if (flags & PARSE_PEEK) {
            *this = save;
            t.line = line;
        }
        return t;
    }
    Tok next_(int flags)
    {
        for (;;) {
            char c = at(p);
            // end of text, end of line
            if (c == 0 || c == '\n') {
                if (flags & PARSE_OPTIONAL)
                    return {0, "", false, line};
                if (flags & PARSE_SAMELINE)
                    return {2};
                if (!c)
                    return {0, "", false, line};
                line++;
                p++;
                continue;
            }
            if (c <= ' ') {
                p++;
                continue;
            }
            if (c == ';' || (c == '/' && at(p + 1) == '/')) {
                size_t e = p;
                while (at(e) && at(e) != '\n')
                    e++;
                if (flags & PARSE_COMMENT) {
                    Tok t{1, s.substr(p, e - p), false, line};
                    p = e;
                    return t;
                }
                if (flags & PARSE_OPTIONAL)
                    return {0, "", false, line};
                if (flags & PARSE_SAMELINE)
                    return {2};
                p = e;
                continue;
            }
            if (flags & PARSE_COMMENT)
                return {0, "", false, line};
            if (c != '"') {
                size_t e = p;
                while (at(e) > ' ')
                    e++;
                Tok t{1, s.substr(p, e - p), false, line};
                p = e;
                return t;
            }
            std::string t;
            size_t e = p + 1;
            for (;;) {
                char q = at(e);
                if (!q)
                    return {2};
                if (q == '"')
                    break;
                if (q == '\\' && at(e + 1) && strchr("n'rt\\b", at(e + 1))) {
                    t += q;
                    t += at(e + 1);
                    e += 2;
                    continue;
                }
                if (q == '\\' && at(e + 1) == '"' && at(e + 2) != '\r' && at(e + 2) != '\n') {
                    t += "\\\"";
                    e += 2;
                    continue;
                }
                t += q;
                e++;
            }
            p = e + 1;
            return {1, t, true, line};
        }
    }
};
} // namespace ref
