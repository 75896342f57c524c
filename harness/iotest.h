#pragma once
#include "common.h"
#include <ply-runtime/io/InStream.h>
#include <ply-runtime/io/OutStream.h>

// Delivers `src`, divided after the positions set in `cuts`
struct CutSource : InPipe {
    static Funcs Funcs_;
    const std::string* src; std::vector<char> cutAfter; size_t pos = 0;
    CutSource(const std::string* src) : InPipe{&Funcs_}, src{src}, cutAfter(src->size() + 1, 0) {}
    static void destroy(InPipe* p) { std::vector<char>().swap(static_cast<CutSource*>(p)->cutAfter); }
    static u32 readSome(InPipe* p_, MutableStringView buf) {
        CutSource* p = static_cast<CutSource*>(p_);
        MC_CHECK(buf.numBytes > 0, "the source is asked for 0 bytes");
        u32 n = 0;
        while (n < buf.numBytes && p->pos < p->src->size()) {
            buf.bytes[n++] = (*p->src)[p->pos++];
            if (p->cutAfter[p->pos]) break;
        }
        return n;
    }
};
InPipe::Funcs CutSource::Funcs_ = {CutSource::destroy, CutSource::readSome, InPipe::getFileSize_Unsupported};

// Collects what is written; fails for good after `room` bytes
struct StrSink : OutPipe {
    static Funcs Funcs_;
    std::string* got; size_t room; bool failed = false;
    StrSink(std::string* got, size_t room = ~(size_t) 0) : OutPipe{&Funcs_}, got{got}, room{room} {}
    static void destroy(OutPipe*) {}
    static bool write(OutPipe* p_, StringView buf) {
        StrSink* p = static_cast<StrSink*>(p_);
        size_t n = std::min<size_t>(p->room, buf.numBytes);
        p->got->append(buf.bytes, n);
        p->room -= n;
        if (n < buf.numBytes) p->failed = true;
        return !p->failed;
    }
    static bool flush(OutPipe* p, bool) { return !static_cast<StrSink*>(p)->failed; }
    static u64 seek(OutPipe*, s64, SeekDir) { return 0; }
};
OutPipe::Funcs StrSink::Funcs_ = {StrSink::destroy, StrSink::write, StrSink::flush, StrSink::seek};

// Every text of up to maxLen pieces from an alphabet
static inline std::string chooseText(const std::vector<std::string>& alphabet, int maxLen) {
    std::string s;
    int n = choose(maxLen + 1);
    for (int i = 0; i < n; i++) s += alphabet[choose((int) alphabet.size())];
    return s;
}
