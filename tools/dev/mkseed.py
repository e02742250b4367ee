"""mkseed.py ID PROPERTY NEEDS BREAKS  < python snippet on stdin? usage: see calls"""
import sys, subprocess, json, os, shutil
def mk(id, prop, needs, breaks, file, edits, demo_cpp, extra_flags="", sh=None):
    """edits: list of (old,new) or (file,old,new)"""
    w="/tmp/seedwt"; base=os.environ.get("BASE","HEAD"); out=os.environ.get("OUT","/verif")
    subprocess.run(["git","-C","/repo","worktree","remove","--force",w],capture_output=True)
    subprocess.run(["git","-C","/repo","worktree","add","-q","--detach",w,base],check=True)
    try:
        for e in edits:
            f,(o,n)=(file,e) if len(e)==2 else (e[0],e[1:])
            p=f"{w}/{f}"; s=open(p).read()
            assert s.count(o)>=1,(f,o)
            assert s.count(o)==1 or isinstance(n,tuple),(f,s.count(o))
            if isinstance(n,tuple): # (n, occurrence index)
                i=-1
                for _ in range(n[1]+1): i=s.index(o,i+1)
                s=s[:i]+n[0]+s[i+len(o):]
            else: s=s.replace(o,n)
            open(p,"w").write(s)
        d=f"{out}/seeded/{id}"; os.makedirs(d,exist_ok=True)
        open(d+"/patch.diff","w").write(subprocess.run(["git","-C",w,"diff"],capture_output=True,text=True).stdout)
    finally: subprocess.run(["git","-C","/repo","worktree","remove","--force",w])
    open(d+"/demo.cpp","w").write(demo_cpp)
    open(d+"/demo.sh","w").write(sh or f'''#!/bin/bash
# builds and runs demo.cpp against the library in the current directory (/repo)
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
clang++-20 -std=c++20 -O1 -w -DNDEBUG -D_GLIBCXX_ASSERTIONS {extra_flags} -Iinclude -Ilib/liburing/include "$D/demo.cpp" lib/liburing/liburing.cpp -o "$T/demo" -lssl -lcrypto -lsqlite3 -lpthread -ldl || exit 3
cd "$T" && timeout 60 ./demo
''')
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
CONN='''
// one client script against the real connection handler over a socket pair
#include <HXLibs/net/router/Router.hpp>
#include <HXLibs/net/server/ConnectionHandler.hpp>
#include <sys/socket.h>
#include <poll.h>
#include <thread>
#include <cstdio>
#include <csignal>
using namespace HX; using namespace HX::net; using namespace HX::utils;
using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>;
static coroutine::RootTask<> go(int fd, std::atomic_bool const& run, Router<HttpIO> const& r, coroutine::EventLoop& l) { return ConnectionHandler<HttpIO>::start<decltype(2_s)>(fd, run, r, l); }
// sends all of in, then reads until eof or ms of silence
static std::string talk(Router<HttpIO> const& r, std::string const& in, int ms = 600) {
    ::signal(SIGPIPE, SIG_IGN);
    int sv[2]; ::socketpair(AF_UNIX, SOCK_STREAM, 0, sv);
    std::atomic_bool run{true}; coroutine::EventLoop loop;
    std::thread t([&] { go(sv[0], run, r, loop).detach(); loop.run(); });
    ::send(sv[1], in.data(), in.size(), MSG_NOSIGNAL);
    std::string out; char b[65536];
    for (;;) { pollfd p{sv[1], POLLIN, 0}; if (::poll(&p, 1, ms) <= 0) break; auto k = ::recv(sv[1], b, sizeof b, 0); if (k <= 0) { out += "<EOF>"; break; } out.append(b, k); }
    ::close(sv[1]); t.join(); return out;
}
'''
