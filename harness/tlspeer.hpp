// An independent TLS peer over memory BIOs: the ciphertext it produces can be cut, delayed or damaged at will.
#pragma once
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/x509.h>
#include <openssl/pem.h>
#include "feeder.hpp"
namespace vf {
// self-signed certificate for localhost in <dir>/c.pem, <dir>/k.pem
inline void makeCert(std::string const& dir) {
    EVP_PKEY* k = EVP_EC_gen("P-256"); X509* x = X509_new();
    X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
    X509_gmtime_adj(X509_getm_notBefore(x), -86400); X509_gmtime_adj(X509_getm_notAfter(x), 86400 * 365);
    X509_set_pubkey(x, k); auto* n = X509_get_subject_name(x);
    X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (unsigned char const*)"localhost", -1, -1, 0); X509_set_issuer_name(x, n);
    X509_sign(x, k, EVP_sha256());
    FILE* f = fopen((dir + "/c.pem").c_str(), "wb"); PEM_write_X509(f, x); fclose(f);
    f = fopen((dir + "/k.pem").c_str(), "wb"); PEM_write_PrivateKey(f, k, nullptr, nullptr, 0, nullptr, nullptr); fclose(f);
    X509_free(x); EVP_PKEY_free(k);
}
inline SSL_CTX* peerCtx(bool server, std::string const& dir) {
    SSL_CTX* c = SSL_CTX_new(server ? TLS_server_method() : TLS_client_method());
    if (server) { SSL_CTX_use_certificate_file(c, (dir + "/c.pem").c_str(), SSL_FILETYPE_PEM); SSL_CTX_use_PrivateKey_file(c, (dir + "/k.pem").c_str(), SSL_FILETYPE_PEM); }
    return c;
}
struct TlsPeer {
    SSL* s; BIO *in, *out; int fd, other; bool eof = false; // other: the reading end of our writes, if it is in this process
    TlsPeer(SSL_CTX* c, bool server, int fd_, int other_, bool tls12) : s(SSL_new(c)), in(BIO_new(BIO_s_mem())), out(BIO_new(BIO_s_mem())), fd(fd_), other(other_) {
        SSL_set_bio(s, in, out); server ? SSL_set_accept_state(s) : SSL_set_connect_state(s);
        if (tls12) SSL_set_max_proto_version(s, TLS1_2_VERSION);
    }
    TlsPeer(TlsPeer const&) = delete;
    ~TlsPeer() { SSL_free(s); }
    std::string take() { std::string o; char b[16384]; int k; while ((k = BIO_read(out, b, sizeof b)) > 0) o.append(b, (std::size_t)k); return o; }
    // reads what has come, without waiting
    void pull(int ms) {
        if (eof) { if (ms) ::usleep(1000); return; }
        pollfd p{fd, POLLIN, 0}; if (::poll(&p, 1, ms) <= 0) return;
        char b[65536]; auto k = ::recv(fd, b, sizeof b, MSG_DONTWAIT);
        if (k > 0) BIO_write(in, b, (int)k); else if (k == 0 || (errno != EAGAIN && errno != EINTR)) eof = true;
    }
    // writes raw bytes in pieces of the given sizes (cycled); each piece is drained before the next one is written
    bool raw(std::string const& x, std::vector<std::size_t> const& cuts, double until) {
        std::size_t p = 0, i = 0;
        while (p < x.size()) {
            std::size_t e = cuts.empty() ? x.size() : std::min(x.size(), p + cuts[i++ % cuts.size()]);
            double w = now() + .01; while (!cuts.empty() && other >= 0 && !drained(other) && now() < w) { pull(0); std::this_thread::yield(); }
            while (p < e) {
                auto k = ::send(fd, x.data() + p, e - p, MSG_NOSIGNAL | MSG_DONTWAIT);
                if (k > 0) p += (std::size_t)k; else if (k < 0 && (errno == EAGAIN || errno == EINTR)) { pull(1); if (now() > until) return false; } else return false;
            }
        }
        return true;
    }
    int hs() { ERR_clear_error(); int r = SSL_do_handshake(s); if (r == 1) return 1; int e = SSL_get_error(s, r); return e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE ? 0 : -1; }
    void write(std::string_view d) { std::size_t p = 0; while (p < d.size()) { ERR_clear_error(); int k = SSL_write(s, d.data() + p, (int)std::min<std::size_t>(d.size() - p, 1 << 20)); if (k <= 0) return; p += (std::size_t)k; } }
    // decrypted bytes that have come; closed: the stream has ended
    std::string read(bool& closed) {
        std::string o; char b[65536];
        for (;;) { ERR_clear_error(); int k = SSL_read(s, b, sizeof b); if (k > 0) { o.append(b, (std::size_t)k); continue; } int e = SSL_get_error(s, k); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) closed = true; break; }
        return o;
    }
};
} // namespace vf
