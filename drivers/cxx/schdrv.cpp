// Executes commands on the stream schemas of RoughPy; one line in, one out.
// Labels have no spaces; "-" stands for the empty label.
#include <roughpy/platform/archives.h>
#include <roughpy/streams/schema.h>

#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using namespace rpy;
using namespace rpy::streams;

static std::vector<std::unique_ptr<StreamSchema>> regs;

static std::string lab(std::istream& in)
{
    std::string s;
    in >> s;
    return s == "-" ? "" : s;
}

static const char* tyname(ChannelType t)
{
    switch (t) {
        case ChannelType::Increment: return "inc";
        case ChannelType::Value: return "val";
        case ChannelType::Categorical: return "cat";
        default: return "lie";
    }
}

static std::string quote(string_view s)
{
    return "\"" + std::string(s) + "\"";
}

// everything a schema can be asked, as JSON
static std::string show(const StreamSchema& s)
{
    std::ostringstream o;
    o << "{\"fin\":" << (s.is_final() ? "true" : "false") << ",\"width\":" << s.width()
      << ",\"wop\":" << s.width_without_param() << ",\"timekey\":" << s.time_channel_to_lie_key() << ",\"ch\":[";
    for (dimn_t c = 0; c < s.size(); ++c) {
        auto& ch = *s.nth(c)->second;
        o << (c ? "," : "") << "{\"l\":" << quote(s.label_of_channel_id(c)) << ",\"ty\":\"" << tyname(ch.type())
          << "\",\"ll\":" << (ch.is_lead_lag() ? "true" : "false") << ",\"dim\":" << s.channel_to_stream_dim(c)
          << ",\"vs\":[";
        bool first = true;
        for (auto& v : ch.get_variants()) {
            o << (first ? "" : ",") << quote(v);
            first = false;
        }
        o << "],\"vl\":[";
        for (dimn_t v = 0; v < ch.num_variants(); ++v) {
            o << (v ? "," : "") << "[" << s.channel_variant_to_stream_dim(c, v) << ","
              << quote(s.label_of_channel_variant(c, v)) << "]";
        }
        o << "]}";
    }
    o << "],\"dims\":[";
    for (dimn_t d = 0; d < s.width_without_param(); ++d) {
        auto cv = s.stream_dim_to_channel(d);
        o << (d ? "," : "") << "[" << cv.first << "," << cv.second << "," << quote(s.label_of_stream_dim(d)) << "]";
    }
    o << "]}";
    return o.str();
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string cmd;
        in >> cmd;
        std::ostringstream out;
        dimn_t a = 0, r = 0, c = 0, n = 0;
        try {
            if (cmd == "reset") { regs.clear(); out << "0"; }
            else if (cmd == "show") { in >> a; out << show(*regs[a - 1]); }
            else if (cmd == "new") {
                in >> n;
                regs.push_back(n ? std::make_unique<StreamSchema>(n) : std::make_unique<StreamSchema>());
                out << "0";
            }
            else if (cmd == "ins") {
                in >> a;
                auto l = lab(in);
                std::string t;
                in >> t;
                auto& s = *regs[a - 1];
                StreamChannel& ch = t == "inc" ? s.insert_increment(l) : t == "val" ? s.insert_value(l) : s.insert_categorical(l);
                dimn_t j = 0;
                while (j < s.size() && s.nth(j)->second.get() != &ch) ++j;
                out << j;
            }
            else if (cmd == "var" || cmd == "addvar") {
                in >> a >> c;
                auto v = lab(in);
                auto& ch = *regs[a - 1]->nth(c)->second;
                auto& same = cmd == "var" ? ch.insert_variant(v) : ch.add_variant(v);
                if (&same != &ch) throw std::runtime_error("other channel");
                out << "0";
            }
            else if (cmd == "ll") {
                in >> a >> c >> n;
                regs[a - 1]->nth(c)->second->set_lead_lag(n != 0);
                out << "0";
            }
            else if (cmd == "time") { in >> a; regs[a - 1]->parametrization()->add_as_channel(); out << "0"; }
            else if (cmd == "fin") { in >> a >> n; regs[a - 1]->finalize(static_cast<deg_t>(n)); out << "0"; }
            else if (cmd == "json" || cmd == "bin") {
                in >> a;
                std::stringstream ss;
                auto s = std::make_unique<StreamSchema>();
                if (cmd == "json") {
                    { archives::JSONOutputArchive ar(ss); ar(*regs[a - 1]); }
                    { archives::JSONInputArchive ar(ss); ar(*s); }
                } else {
                    { archives::BinaryOutputArchive ar(ss); ar(*regs[a - 1]); }
                    { archives::BinaryInputArchive ar(ss); ar(*s); }
                }
                regs.push_back(std::move(s));
                out << "0";
            }
            else if (cmd == "find") {
                in >> a;
                auto l = lab(in);
                const StreamSchema& s = *regs[a - 1];
                auto it = s.find(l);
                if (s.contains(l) != (it != s.end())) throw std::runtime_error("contains disagrees with find");
                out << (it == s.end() ? -1 : int(it - s.begin()));
            }
            else if (cmd == "dimof") {
                in >> a;
                auto l = lab(in);
                auto d = regs[a - 1]->label_to_stream_dim(l);
                if (regs[a - 1]->label_to_lie_key(l) != d + 1) throw std::logic_error("Lie key of label");
                out << d;
            }
            else if (cmd == "chof") {
                in >> a >> n;
                auto cv = regs[a - 1]->stream_dim_to_channel(n);
                out << cv.first * 100 + cv.second;
            }
            else if (cmd == "cmp") {
                auto x = lab(in), y = lab(in);
                out << (StreamSchema::compare_labels(x, y) ? 1 : 0);
            }
            else out << "? " << cmd;
        } catch (std::logic_error& e) {
            std::string w = e.what();
            out.str("");
            out << (w.find("Lie key") == 0 ? -3 : -2);
        } catch (std::exception& e) {
            out.str("");
            out << "-2";
        }
        std::cout << out.str() << std::endl;
    }
}
