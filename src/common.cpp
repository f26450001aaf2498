#include "common.hpp"

namespace t {

ParseCfg ParseCase::cfg() const
{ ParseCfg f; f.opts = &opts; f.style = style; f.pos = has_pos ? &pos : nullptr; f.allow_unreg = allow_unreg; f.extra = extra; f.style_parser = style_parser; return f; }

string ParseCase::show() const
{
    string s = t::show(opts) + "style: " + style_show(style) + (allow_unreg ? ", allow_unregistered" : "") + "\n";
    if (has_pos) { s += "positional:"; for (auto& e : pos.e) s += " " + pbt::esc(e.name) + "*" + std::to_string(e.count); s += "\n"; }
    if (extra) s += "with an extra_parser\n"; if (style_parser) s += "with an extra_style_parser\n";
    return s + "tokens: " + pbt::esc(tokens) + "\n";
}
void key_case(pbt::Ctx& c, const ParseCase& p)
{
    for (auto& o : p.opts) { c.key(o.names()); c.key(uint64_t(o.sem.kind)); c.key(uint64_t(o.sem.min_tokens()) << 32 | o.sem.max_tokens()); }
    c.key(uint64_t(p.style)); c.key(p.tokens); c.key(uint64_t(p.allow_unreg)); for (auto& e : p.pos.e) { c.key(e.name); c.key(uint64_t(e.count)); }
}

void build_desc(po::options_description& d, const vector<Opt>& o, int groups, Sinks* s)
{
    // The flattened order is always that of o: a prefix directly, the rest through nested groups.
    if (groups <= 0 || o.size() < 2) { add_options(d, o, s); return; }
    size_t cut = o.size() / 2 + (groups & 1 ? 0 : 1); if (cut >= o.size()) cut = o.size() - 1;
    vector<Opt> a(o.begin(), o.begin() + cut), b(o.begin() + cut, o.end());
    switch (groups % 3) {
    case 0: add_options(d, a, s); break;
    case 1: { po::options_description g("first"); add_options(g, a, s); d.add(g); break; }
    default: { po::options_description g; build_desc(g, a, groups / 3, s); d.add(g); }
    }
    po::options_description h("rest"); build_desc(h, b, groups / 3, s); d.add(h);
}

RealResult real_parse(const ParseCase& p, po::options_description& d)
{
    RealResult r;
    build_desc(d, p.opts, p.groups);
    po::positional_options_description pd;
    if (p.has_pos) p.pos.build(pd);
    auto wrap_extra = [&p](const string& s) { return p.extra(s); };
    auto wrap_style = [&p](vector<string>& a) {
        vector<po::option> out; auto q = p.style_parser(a, 0);
        for (auto& o : q.first) { po::option x; x.string_key = o.key; x.value = o.value; x.original_tokens = o.orig; x.position_key = o.pos; x.unregistered = o.unreg; out.push_back(x); }
        a.erase(a.begin(), a.begin() + q.second); return out; };
    Caught k = catch_err([&] {
        if (p.entry == 0) {
            po::command_line_parser q(p.tokens); q.options(d).style(p.style);
            if (p.has_pos) q.positional(pd); if (p.allow_unreg) q.allow_unregistered(); if (p.extra) q.extra_parser(wrap_extra); if (p.style_parser) q.extra_style_parser(wrap_style);
            r.parsed = q.run();
        } else {
            vector<const char*> argv; // the program's name is nothing to the parsers, also if it looks like an argument
            const char* const names[] = {"program", "", p.tokens.empty() ? "" : p.tokens[0].c_str(), "program", p.tokens.empty() ? "--" : p.tokens.back().c_str(), "program"}; size_t h = p.tokens.size(); for (auto& s : p.tokens) h = h * 31 + s.size(); argv.push_back(names[h % 6]); for (auto& s : p.tokens) argv.push_back(s.c_str()); argv.push_back(nullptr);
            int argc = int(argv.size()) - 1;
            if (p.entry == 1) {
                po::command_line_parser q(argc, argv.data()); q.options(d).style(p.style);
                if (p.has_pos) q.positional(pd); if (p.allow_unreg) q.allow_unregistered(); if (p.extra) q.extra_parser(wrap_extra); if (p.style_parser) q.extra_style_parser(wrap_style);
                r.parsed = q.run();
            } else if (p.extra) r.parsed = po::parse_command_line(argc, argv.data(), d, p.style, wrap_extra);
            else r.parsed = po::parse_command_line(argc, argv.data(), d, p.style);
        }
    });
    if (k.threw) { r.ok = false; r.err = k.e; return r; }
    r.opts = from_real(r.parsed.options); r.prefix = r.parsed.m_options_prefix;
    return r;
}

void compare_parse(pbt::Ctx& c, const ParseResult& m, const RealResult& r, bool messages)
{
    if (m.ok != r.ok) {
        if (m.ok) c.fail("expected the options" + show(m.opts) + "\n  but got the error " + r.err.show());
        c.fail("expected the error " + m.err.show() + "\n  but got the options" + show(r.opts));
    }
    if (!m.ok) {
        if (!same_class(m.err, r.err)) c.fail("expected the error " + m.err.show() + "\n  but got " + r.err.show());
        if (messages && m.err.what != r.err.what) c.fail("expected the message " + pbt::esc(m.err.what) + "\n  but got " + pbt::esc(r.err.what));
        return;
    }
    if (!(m.opts == r.opts)) c.fail("expected the options" + show(m.opts) + "\n  but got" + show(r.opts));
}

void label_parse(pbt::Ctx& c, const ParseResult& m)
{
    const ParseTrace& t = m.tr;
    if (t.adjacent) c.label("adjacent value"); if (t.next) c.label("value in next token"); if (t.sticky) c.label("sticky group"); if (t.disguised) c.label("disguised long"); if (t.dos) c.label("slash short");
    if (t.guessed) c.label("abbreviated"); if (t.cased) c.label("case differs"); if (t.wild) c.label("wildcard"); if (t.terminator) c.label("terminator"); if (t.grabbed) c.label("multitoken grabs"); if (t.implicit) c.label("optional value omitted"); if (t.positional) c.label("positional"); if (t.unreg) c.label("unregistered");
    if (!m.ok) c.label(m.err.cls == "invalid_command_line_syntax" ? (m.err.kind == po::invalid_syntax::missing_parameter ? "error: missing" : m.err.kind == po::invalid_syntax::extra_parameter ? "error: extra" : "error: empty adjacent") : m.err.cls == "unknown_option" ? "error: unknown" : m.err.cls == "ambiguous_option" ? "error: ambiguous" : "error: other");
}

} // namespace t
