#ifndef SIM_LAZPERF_LAZPERF_HPP
#define SIM_LAZPERF_LAZPERF_HPP
#include "filestream.hpp"
#include "vlr.hpp"
// Stand-in codec. Same shape as LAZ 1.4 point compression: the first record is stored raw; at done() a record count,
// the sizes of the layers, then the layers follow. Three layers: coordinates (12 bytes), attributes, extra bytes. Each
// record after the first contributes, per layer, a 1-byte-per-8 change bitmap and the XOR of the changed bytes.
namespace lazperf
{
struct chunk
{
    uint64_t count;
    uint64_t offset;
};

namespace detail
{
inline int base_size(int format)
{
    switch (format)
    {
    case 6:
        return 30;
    case 7:
        return 36;
    case 8:
        return 38;
    default:
        throw error("Unsupported point format");
    }
}
struct Layer
{
    int off, len;
};
inline std::vector<Layer> layers(int format, int eb)
{
    int b = base_size(format);
    if (eb < 0)
        throw error("Invalid extra byte count");
    std::vector<Layer> l{{0, 12}, {12, b - 12}};
    if (eb)
        l.push_back({b, eb});
    return l;
}
} // namespace detail

struct las_compressor
{
    using ptr = std::shared_ptr<las_compressor>;
    virtual ~las_compressor() = default;
    virtual const char *compress(const char *in) = 0;
    virtual void done() = 0;
};
struct las_decompressor
{
    using ptr = std::shared_ptr<las_decompressor>;
    virtual ~las_decompressor() = default;
    virtual char *decompress(char *out) = 0;
};

namespace detail
{
struct compressor14 : las_compressor
{
    OutputCb cb;
    std::vector<Layer> ls;
    std::vector<std::vector<unsigned char>> data;
    std::vector<char> last;
    uint32_t count{0};
    int size;
    compressor14(OutputCb c, int format, int eb)
        : cb(std::move(c)), ls(layers(format, eb)), data(ls.size()), size(base_size(format) + eb)
    {
    }
    const char *compress(const char *in) override
    {
        if (count++ == 0)
        {
            last.assign(in, in + size);
            cb(reinterpret_cast<const unsigned char *>(in), static_cast<size_t>(size));
            return in + size;
        }
        for (size_t k = 0; k < ls.size(); k++)
        {
            auto &d = data[k];
            const char *a = in + ls[k].off;
            char *b = last.data() + ls[k].off;
            for (int i = 0; i < ls[k].len; i += 8)
            {
                int n = std::min(8, ls[k].len - i);
                unsigned char map = 0;
                for (int j = 0; j < n; j++)
                    if (a[i + j] != b[i + j])
                        map = static_cast<unsigned char>(map | (1 << j));
                d.push_back(map);
                for (int j = 0; j < n; j++)
                    if (a[i + j] != b[i + j])
                        d.push_back(static_cast<unsigned char>(a[i + j] ^ b[i + j]));
            }
            std::memcpy(b, a, static_cast<size_t>(ls[k].len));
        }
        return in + size;
    }
    void done() override
    {
        Put s;
        s.num(count);
        for (auto &d : data)
            s.num(static_cast<uint32_t>(d.size()));
        cb(reinterpret_cast<const unsigned char *>(s.buf.data()), s.buf.size());
        for (auto &d : data)
            if (!d.empty())
                cb(d.data(), d.size());
    }
};
struct decompressor14 : las_decompressor
{
    InputCb cb;
    std::vector<Layer> ls;
    std::vector<std::vector<unsigned char>> data;
    std::vector<size_t> pos;
    std::vector<char> last;
    bool first{true}, loaded{false};
    int size;
    decompressor14(InputCb c, int format, int eb)
        : cb(std::move(c)), ls(layers(format, eb)), data(ls.size()), pos(ls.size(), 0), size(base_size(format) + eb)
    {
    }
    void load()
    {
        loaded = true;
        std::vector<uint32_t> hd(1 + ls.size());
        cb(reinterpret_cast<unsigned char *>(hd.data()), hd.size() * 4);
        for (size_t k = 0; k < ls.size(); k++)
        {
            // in pieces, so that a damaged size ends in an end-of-file error, not a huge allocation
            size_t want = hd[k + 1];
            while (data[k].size() < want)
            {
                size_t at = data[k].size(), n = std::min<size_t>(want - at, 4096);
                data[k].resize(at + n);
                cb(data[k].data() + at, n);
            }
        }
    }
    unsigned char next(size_t k)
    {
        if (pos[k] >= data[k].size())
            throw error("Corrupt chunk.");
        return data[k][pos[k]++];
    }
    char *decompress(char *out) override
    {
        if (first)
        {
            first = false;
            last.resize(static_cast<size_t>(size));
            cb(reinterpret_cast<unsigned char *>(last.data()), last.size());
            load();
        }
        else
        {
            for (size_t k = 0; k < ls.size(); k++)
            {
                char *b = last.data() + ls[k].off;
                for (int i = 0; i < ls[k].len; i += 8)
                {
                    int n = std::min(8, ls[k].len - i);
                    unsigned char map = next(k);
                    for (int j = 0; j < n; j++)
                        if (map & (1 << j))
                            b[i + j] = static_cast<char>(b[i + j] ^ next(k));
                }
            }
        }
        std::memcpy(out, last.data(), last.size());
        return out + size;
    }
};
} // namespace detail

inline las_compressor::ptr build_las_compressor(OutputCb cb, int format, int ebCount = 0)
{
    return std::make_shared<detail::compressor14>(std::move(cb), format, ebCount);
}
inline las_decompressor::ptr build_las_decompressor(InputCb cb, int format, int ebCount = 0)
{
    return std::make_shared<detail::decompressor14>(std::move(cb), format, ebCount);
}

// Variable-chunk table: per chunk a varint count and a zig-zag varint offset (laz-perf uses an arithmetic coder here;
// values and order are the same).
inline void compress_chunk_table(OutputCb cb, const std::vector<chunk> &chunks, bool variable)
{
    std::vector<unsigned char> out;
    auto put = [&](uint64_t v)
    {
        while (v >= 0x80)
        {
            out.push_back(static_cast<unsigned char>(v | 0x80));
            v >>= 7;
        }
        out.push_back(static_cast<unsigned char>(v));
    };
    for (auto &c : chunks)
    {
        if (variable)
            put(static_cast<uint32_t>(c.count));
        put(static_cast<uint32_t>(c.offset));
    }
    if (!out.empty())
        cb(out.data(), out.size());
}
inline std::vector<chunk> decompress_chunk_table(InputCb cb, size_t n, bool variable)
{
    std::vector<chunk> out;
    auto get = [&]()
    {
        uint64_t v = 0;
        for (int sh = 0;; sh += 7)
        {
            unsigned char b;
            cb(&b, 1);
            if (sh > 63)
                throw error("Corrupt chunk table.");
            v |= static_cast<uint64_t>(b & 0x7f) << sh;
            if (!(b & 0x80))
                return v;
        }
    };
    for (size_t i = 0; i < n; i++)
    {
        chunk c{0, 0};
        if (variable)
            c.count = get();
        c.offset = get();
        out.push_back(c);
    }
    return out;
}
} // namespace lazperf
#endif
