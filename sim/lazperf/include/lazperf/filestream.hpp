#ifndef SIM_LAZPERF_FILESTREAM_HPP
#define SIM_LAZPERF_FILESTREAM_HPP
#include "header.hpp"
#include <functional>
#include <memory>
namespace lazperf
{
using InputCb = std::function<void(unsigned char *, size_t)>;
using OutputCb = std::function<void(const unsigned char *, size_t)>;

// Read-ahead size. laz-perf uses 1 MiB; the simulator varies it per run.
inline size_t &in_buffer_size()
{
    static size_t n = 1 << 16;
    return n;
}

class InFileStream
{
    struct Private
    {
        std::istream &f;
        std::vector<unsigned char> buf;
        size_t pos{0}, avail{0};
        explicit Private(std::istream &in) : f(in), buf(in_buffer_size()) {}
        void fill()
        {
            f.read(reinterpret_cast<char *>(buf.data()), static_cast<std::streamsize>(buf.size()));
            avail = static_cast<size_t>(f.gcount());
            pos = 0;
            if (avail == 0)
                throw error("Unexpected end of file.");
        }
        void get(unsigned char *dst, size_t n)
        {
            while (n)
            {
                if (pos == avail)
                    fill();
                size_t k = std::min(n, avail - pos);
                std::memcpy(dst, buf.data() + pos, k);
                pos += k;
                dst += k;
                n -= k;
            }
        }
    };
    std::shared_ptr<Private> p_;

  public:
    InFileStream(std::istream &in) : p_(std::make_shared<Private>(in)) {}
    void reset()
    {
        p_->pos = p_->avail = 0;
    }
    InputCb cb()
    {
        auto p = p_;
        return [p](unsigned char *b, size_t n) { p->get(b, n); };
    }
};

class OutFileStream
{
    std::ostream &f_;

  public:
    OutFileStream(std::ostream &out) : f_(out) {}
    OutputCb cb()
    {
        std::ostream *f = &f_;
        return [f](const unsigned char *b, size_t n)
        { f->write(reinterpret_cast<const char *>(b), static_cast<std::streamsize>(n)); };
    }
};
} // namespace lazperf
#endif
