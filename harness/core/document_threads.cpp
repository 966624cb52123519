// C05, several threads: ids stay unique however the threads interleave.
#include "../pbt.hpp"
#include "NeoFOAM/core/database/document.hpp"
#include <thread>

using NeoFOAM::Dictionary;
using NeoFOAM::Document;

static void concurrent(pbt::Gen& g, size_t maxPer)
{
    size_t threads = static_cast<size_t>(g.range(2, 8));
    size_t per = static_cast<size_t>(g.range(1, static_cast<int64_t>(maxPer)));
    bool withDict = g.boolean();
    g.note(threads, " threads create ", per, " documents each", withDict ? " with content" : "");
    std::vector<std::vector<std::string>> ids(threads);
    std::atomic<size_t> ready {0};
    std::vector<std::thread> ts;
    for (size_t t = 0; t < threads; t++)
        ts.emplace_back(
            [&, t]
            {
                ids[t].reserve(per);
                ready++;
                while (ready < threads) {}
                for (size_t i = 0; i < per; i++)
                {
                    if (withDict)
                    {
                        Dictionary d;
                        d.insert("k", int(i));
                        ids[t].push_back(Document(d).id());
                    }
                    else ids[t].push_back(Document().id());
                }
            }
        );
    for (auto& t : ts) t.join();
    std::set<std::string> all;
    for (auto& v : ids)
        for (auto& id : v)
            PBT_CHECK(all.insert(id).second, "two documents created concurrently share the id ", id);
    if (per > 20) g.nontrivial();
}

PBT(threads, 400, 6000, "at least two threads create more than twenty documents each")
{
    concurrent(g, 400);
}
