// Stand-in for laz-perf's header.hpp (laz-perf itself is not available offline).
// Same public names and on-disk LAS 1.4 layout as laz-perf 3; see /verif/DESIGN.md.
#ifndef SIM_LAZPERF_HEADER_HPP
#define SIM_LAZPERF_HEADER_HPP
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace lazperf
{

struct error : public std::runtime_error
{
    error(const std::string &what) : std::runtime_error(what) {}
};

namespace detail
{
struct Put
{
    std::vector<char> buf;
    template <typename T> void num(T v)
    {
        const char *p = reinterpret_cast<const char *>(&v);
        buf.insert(buf.end(), p, p + sizeof(T));
    }
    void raw(const char *p, size_t n) { buf.insert(buf.end(), p, p + n); }
    void str(const std::string &s, size_t n)
    {
        size_t k = s.size() < n ? s.size() : n;
        buf.insert(buf.end(), s.begin(), s.begin() + k);
        buf.insert(buf.end(), n - k, 0);
    }
    void to(std::ostream &out) const { out.write(buf.data(), static_cast<std::streamsize>(buf.size())); }
};
struct Get
{
    const char *p;
    template <typename T> void num(T &v)
    {
        std::memcpy(&v, p, sizeof(T));
        p += sizeof(T);
    }
    void raw(char *d, size_t n)
    {
        std::memcpy(d, p, n);
        p += n;
    }
    void str(std::string &s, size_t n)
    {
        size_t k = 0;
        while (k < n && p[k])
            k++;
        s.assign(p, k);
        p += n;
    }
};
} // namespace detail

struct vec3
{
    double x{0}, y{0}, z{0};
};

struct header14
{
    static const int Size = 375;
    char magic[4];
    uint16_t file_source_id;
    uint16_t global_encoding;
    char guid[16];
    struct
    {
        uint8_t major;
        uint8_t minor;
    } version;
    char system_identifier[32];
    char generating_software[32];
    struct
    {
        uint16_t day;
        uint16_t year;
    } creation;
    uint16_t header_size;
    uint32_t point_offset;
    uint32_t vlr_count;
    uint8_t point_format_id;
    uint16_t point_record_length;
    uint32_t point_count;
    uint32_t points_by_return[5];
    vec3 scale;
    vec3 offset;
    double maxx, minx, maxy, miny, maxz, minz;
    uint64_t wave_offset;
    uint64_t evlr_offset;
    uint32_t evlr_count;
    uint64_t point_count_14;
    uint64_t points_by_return_14[15];

    header14()
    {
        std::memset(static_cast<void *>(this), 0, sizeof(*this));
        std::memcpy(magic, "LASF", 4);
        version.major = 1;
        version.minor = 4;
        header_size = Size;
    }

    bool compressed() const { return (point_format_id & 0xC0) == 0x80; }

    // One contiguous write, as laz-perf does.
    void write(std::ostream &out) const
    {
        detail::Put s;
        s.raw(magic, 4);
        s.num(file_source_id);
        s.num(global_encoding);
        s.raw(guid, 16);
        s.num(version.major);
        s.num(version.minor);
        s.raw(system_identifier, 32);
        s.raw(generating_software, 32);
        s.num(creation.day);
        s.num(creation.year);
        s.num(header_size);
        s.num(point_offset);
        s.num(vlr_count);
        s.num(point_format_id);
        s.num(point_record_length);
        s.num(point_count);
        for (auto &v : points_by_return)
            s.num(v);
        s.num(scale.x), s.num(scale.y), s.num(scale.z);
        s.num(offset.x), s.num(offset.y), s.num(offset.z);
        s.num(maxx), s.num(minx), s.num(maxy), s.num(miny), s.num(maxz), s.num(minz);
        s.num(wave_offset);
        s.num(evlr_offset);
        s.num(evlr_count);
        s.num(point_count_14);
        for (auto &v : points_by_return_14)
            s.num(v);
        s.to(out);
    }

    static header14 create(std::istream &in)
    {
        header14 h;
        h.read(in);
        return h;
    }

    void read(std::istream &in)
    {
        std::vector<char> buf(Size, 0);
        in.read(buf.data(), Size);
        detail::Get s{buf.data()};
        s.raw(magic, 4);
        s.num(file_source_id);
        s.num(global_encoding);
        s.raw(guid, 16);
        s.num(version.major);
        s.num(version.minor);
        s.raw(system_identifier, 32);
        s.raw(generating_software, 32);
        s.num(creation.day);
        s.num(creation.year);
        s.num(header_size);
        s.num(point_offset);
        s.num(vlr_count);
        s.num(point_format_id);
        s.num(point_record_length);
        s.num(point_count);
        for (auto &v : points_by_return)
            s.num(v);
        s.num(scale.x), s.num(scale.y), s.num(scale.z);
        s.num(offset.x), s.num(offset.y), s.num(offset.z);
        s.num(maxx), s.num(minx), s.num(maxy), s.num(miny), s.num(maxz), s.num(minz);
        s.num(wave_offset);
        s.num(evlr_offset);
        s.num(evlr_count);
        s.num(point_count_14);
        for (auto &v : points_by_return_14)
            s.num(v);
    }
};
using header12 = header14;
using header13 = header14;
} // namespace lazperf
#endif
