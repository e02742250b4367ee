#!/bin/bash
# cc.sh src out
clang++-20 -std=c++20 -DNDEBUG -O1 -g1 -w -D_GLIBCXX_ASSERTIONS -DHXLIBS_ENABLE_SSL -DHXLIBS_ENABLE_DB_SQLITE3 -I${R:-/repo}/include -I${R:-/repo}/lib/liburing/include -I/verif/harness /verif/harness/$1 /repo/lib/liburing/liburing.cpp -o $2 -lssl -lcrypto -lsqlite3 -lpthread 2>&1 | grep -E "error|note: in inst" | head -20
