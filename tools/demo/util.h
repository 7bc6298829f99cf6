#pragma once
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "eckit/filesystem/PathName.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/runtime/Main.h"
#include "metkit/mars/MarsRequest.h"

#include "fdb5/api/FDB.h"
#include "fdb5/api/helpers/FDBToolRequest.h"
#include "fdb5/api/helpers/ListIterator.h"
#include "fdb5/config/Config.h"
#include "fdb5/database/Key.h"

using namespace fdb5;

inline Key mk(const std::string& param, const std::string& step = "0", const std::string& date = "20200101", const std::string& type = "fc",
              const std::string& cls = "od") {
    Key k;
    k.set("class", cls);
    k.set("expver", "xxxx");
    k.set("stream", "oper");
    k.set("date", date);
    k.set("time", "0000");
    k.set("domain", "g");
    k.set("type", type);
    k.set("levtype", "sfc");
    k.set("step", step);
    k.set("param", param);
    return k;
}

inline metkit::mars::MarsRequest rq(const Key& k, const std::vector<std::string>& params = {}) {
    metkit::mars::MarsRequest r("retrieve");
    for (const auto& kv : k) {
        if (kv.first == "param" && !params.empty()) {
            r.values("param", params);
        }
        else {
            r.setValue(kv.first, kv.second);
        }
    }
    return r;
}

inline std::string readAll(eckit::DataHandle* dh) {
    std::unique_ptr<eckit::DataHandle> h(dh);
    eckit::MemoryHandle m(1 << 20, true);
    h->saveInto(m);
    return std::string(static_cast<const char*>(m.data()), m.size());
}

inline void put(FDB& fdb, const Key& k, const std::string& data) {
    fdb.archive(k, data.data(), data.size());
}

inline std::string get(FDB& fdb, const Key& k) {
    return readAll(fdb.retrieve(rq(k)));
}

inline std::vector<ListElement> listAll(FDB& fdb, const Key& k, bool dedup = false) {
    std::vector<ListElement> v;
    auto it = fdb.list(FDBToolRequest(rq(k)), dedup);
    ListElement e;
    while (it.next(e)) {
        v.push_back(e);
    }
    return v;
}

#define CHECK(c)                                                       \
    do {                                                               \
        if (!(c)) {                                                    \
            std::cerr << "FAILED " << __LINE__ << ": " #c << std::endl; \
            std::_Exit(1);                                             \
        }                                                              \
    } while (0)
