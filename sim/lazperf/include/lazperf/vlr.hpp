#ifndef SIM_LAZPERF_VLR_HPP
#define SIM_LAZPERF_VLR_HPP
#include "header.hpp"
namespace lazperf
{
struct vlr_header
{
    uint16_t reserved{0};
    std::string user_id;
    uint16_t record_id{0};
    uint16_t data_length{0};
    std::string description;
    static const int Size = 54;
    vlr_header() = default;
    vlr_header(uint16_t r, const std::string &u, uint16_t id, uint16_t len, const std::string &d)
        : reserved(r), user_id(u), record_id(id), data_length(len), description(d)
    {
    }
    static vlr_header create(std::istream &in)
    {
        vlr_header h;
        h.read(in);
        return h;
    }
    void read(std::istream &in)
    {
        std::vector<char> b(Size, 0);
        in.read(b.data(), Size);
        detail::Get s{b.data()};
        s.num(reserved);
        s.str(user_id, 16);
        s.num(record_id);
        s.num(data_length);
        s.str(description, 32);
    }
    void write(std::ostream &out) const
    {
        detail::Put s;
        s.num(reserved);
        s.str(user_id, 16);
        s.num(record_id);
        s.num(data_length);
        s.str(description, 32);
        s.to(out);
    }
};
struct evlr_header
{
    uint16_t reserved{0};
    std::string user_id;
    uint16_t record_id{0};
    uint64_t data_length{0};
    std::string description;
    static const int Size = 60;
    evlr_header() = default;
    evlr_header(uint16_t r, const std::string &u, uint16_t id, uint64_t len, const std::string &d)
        : reserved(r), user_id(u), record_id(id), data_length(len), description(d)
    {
    }
    static evlr_header create(std::istream &in)
    {
        evlr_header h;
        h.read(in);
        return h;
    }
    void read(std::istream &in)
    {
        std::vector<char> b(Size, 0);
        in.read(b.data(), Size);
        detail::Get s{b.data()};
        s.num(reserved);
        s.str(user_id, 16);
        s.num(record_id);
        s.num(data_length);
        s.str(description, 32);
    }
    void write(std::ostream &out) const
    {
        detail::Put s;
        s.num(reserved);
        s.str(user_id, 16);
        s.num(record_id);
        s.num(data_length);
        s.str(description, 32);
        s.to(out);
    }
};

struct vlr
{
    virtual ~vlr() = default;
    virtual uint64_t size() const = 0;
    virtual vlr_header header() const = 0;
    virtual evlr_header eheader() const = 0;
};

struct laz_vlr : public vlr
{
    struct laz_item
    {
        uint16_t type;
        uint16_t size;
        uint16_t version;
    };
    uint16_t compressor{3};
    uint16_t coder{0};
    uint8_t ver_major{3};
    uint8_t ver_minor{4};
    uint16_t revision{3};
    uint32_t options{0};
    uint32_t chunk_size{0};
    int64_t num_points{-1};
    int64_t num_bytes{-1};
    std::vector<laz_item> items;

    laz_vlr() = default;
    laz_vlr(int format, int ebCount, uint32_t chunksize) : chunk_size(chunksize)
    {
        if (format < 6 || format > 8)
            throw error("laz_vlr: unsupported point format");
        items.push_back({10, 30, 3});
        if (format == 7)
            items.push_back({11, 6, 3});
        if (format == 8)
            items.push_back({12, 8, 3});
        if (ebCount)
            items.push_back({14, static_cast<uint16_t>(ebCount), 3});
    }
    bool valid() const { return compressor == 3; }
    uint64_t size() const override { return 34 + items.size() * 6; }
    vlr_header header() const override
    {
        return {0, "laszip encoded", 22204, static_cast<uint16_t>(size()), "laz-perf variant"};
    }
    evlr_header eheader() const override { return {0, "laszip encoded", 22204, size(), "laz-perf variant"}; }
    void write(std::ostream &out) const
    {
        detail::Put s;
        s.num(compressor), s.num(coder), s.num(ver_major), s.num(ver_minor), s.num(revision), s.num(options);
        s.num(chunk_size), s.num(num_points), s.num(num_bytes);
        s.num(static_cast<uint16_t>(items.size()));
        for (auto &i : items)
            s.num(i.type), s.num(i.size), s.num(i.version);
        s.to(out);
    }
    // Strict: a record that is too short for what it announces is refused.
    void read(const char *p, size_t n)
    {
        if (n < 34)
            throw error("Invalid LASZIP VLR");
        detail::Get s{p};
        s.num(compressor), s.num(coder), s.num(ver_major), s.num(ver_minor), s.num(revision), s.num(options);
        s.num(chunk_size), s.num(num_points), s.num(num_bytes);
        uint16_t k;
        s.num(k);
        if (n < 34u + 6u * k)
            throw error("Invalid LASZIP VLR");
        items.clear();
        for (int i = 0; i < k; i++)
        {
            laz_item it;
            s.num(it.type), s.num(it.size), s.num(it.version);
            items.push_back(it);
        }
    }
};

struct eb_vlr : public vlr
{
    struct ebfield
    {
        uint8_t reserved[2];
        uint8_t data_type;
        uint8_t options;
        std::string name;
        uint8_t unused[4];
        double no_data[3];
        double minval[3];
        double maxval[3];
        double scale[3];
        double offset[3];
        std::string description;
        ebfield() : reserved{}, data_type(1), options(0), unused{}, no_data{}, minval{}, maxval{}, scale{}, offset{} {}
    };
    std::vector<ebfield> items;
    eb_vlr() = default;
    eb_vlr(int ebCount)
    {
        for (int i = 0; i < ebCount; i++)
        {
            ebfield f;
            f.name = "FIELD_" + std::to_string(i);
            addField(f);
        }
    }
    void addField(const ebfield &f) { items.push_back(f); }
    uint64_t size() const override { return items.size() * 192; }
    vlr_header header() const override { return {0, "LASF_Spec", 4, static_cast<uint16_t>(size()), ""}; }
    evlr_header eheader() const override { return {0, "LASF_Spec", 4, size(), ""}; }
    static eb_vlr create(std::istream &in, int byteSize)
    {
        eb_vlr v;
        v.read(in, byteSize);
        return v;
    }
    void read(std::istream &in, int byteSize)
    {
        std::vector<char> b(static_cast<size_t>(byteSize), 0);
        in.read(b.data(), byteSize);
        items.clear();
        detail::Get s{b.data()};
        for (int i = 0; i < byteSize / 192; i++)
        {
            ebfield f;
            s.raw(reinterpret_cast<char *>(f.reserved), 2);
            s.num(f.data_type);
            s.num(f.options);
            s.str(f.name, 32);
            s.raw(reinterpret_cast<char *>(f.unused), 4);
            for (auto &v : f.no_data)
                s.num(v);
            for (auto &v : f.minval)
                s.num(v);
            for (auto &v : f.maxval)
                s.num(v);
            for (auto &v : f.scale)
                s.num(v);
            for (auto &v : f.offset)
                s.num(v);
            s.str(f.description, 32);
            items.push_back(f);
        }
    }
    void write(std::ostream &out) const
    {
        detail::Put s;
        for (auto &f : items)
        {
            s.raw(reinterpret_cast<const char *>(f.reserved), 2);
            s.num(f.data_type);
            s.num(f.options);
            s.str(f.name, 32);
            s.raw(reinterpret_cast<const char *>(f.unused), 4);
            for (auto &v : f.no_data)
                s.num(v);
            for (auto &v : f.minval)
                s.num(v);
            for (auto &v : f.maxval)
                s.num(v);
            for (auto &v : f.scale)
                s.num(v);
            for (auto &v : f.offset)
                s.num(v);
            s.str(f.description, 32);
        }
        s.to(out);
    }
};

struct wkt_vlr : public vlr
{
    std::string wkt;
    wkt_vlr() = default;
    wkt_vlr(const std::string &s) : wkt(s) {}
    uint64_t size() const override { return wkt.size(); }
    vlr_header header() const override { return {0, "LASF_Projection", 2112, static_cast<uint16_t>(size()), ""}; }
    evlr_header eheader() const override { return {0, "LASF_Projection", 2112, size(), ""}; }
    static wkt_vlr create(std::istream &in, int byteSize)
    {
        wkt_vlr v;
        v.read(in, byteSize);
        return v;
    }
    void read(std::istream &in, int byteSize)
    {
        std::vector<char> b(static_cast<size_t>(byteSize), 0);
        in.read(b.data(), byteSize);
        wkt.assign(b.begin(), b.end());
    }
    void write(std::ostream &out) const { out.write(wkt.data(), static_cast<std::streamsize>(wkt.size())); }
};

struct copc_info_vlr : public vlr
{
    double center_x{0}, center_y{0}, center_z{0};
    double halfsize{0};
    double spacing{0};
    uint64_t root_hier_offset{0};
    uint64_t root_hier_size{0};
    double gpstime_minimum{0};
    double gpstime_maximum{0};
    uint64_t reserved[11]{};
    static copc_info_vlr create(std::istream &in)
    {
        copc_info_vlr v;
        v.read(in);
        return v;
    }
    uint64_t size() const override { return 160; }
    vlr_header header() const override { return {0, "copc", 1, static_cast<uint16_t>(size()), "COPC info VLR"}; }
    evlr_header eheader() const override { return {0, "copc", 1, size(), "COPC info VLR"}; }
    void read(std::istream &in)
    {
        std::vector<char> b(160, 0);
        in.read(b.data(), 160);
        detail::Get s{b.data()};
        s.num(center_x), s.num(center_y), s.num(center_z), s.num(halfsize), s.num(spacing);
        s.num(root_hier_offset), s.num(root_hier_size), s.num(gpstime_minimum), s.num(gpstime_maximum);
        for (auto &r : reserved)
            s.num(r);
    }
    void write(std::ostream &out) const
    {
        detail::Put s;
        s.num(center_x), s.num(center_y), s.num(center_z), s.num(halfsize), s.num(spacing);
        s.num(root_hier_offset), s.num(root_hier_size), s.num(gpstime_minimum), s.num(gpstime_maximum);
        for (auto &r : reserved)
            s.num(r);
        s.to(out);
    }
};
} // namespace lazperf
#endif
