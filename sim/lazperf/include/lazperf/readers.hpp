#ifndef SIM_LAZPERF_READERS_HPP
#define SIM_LAZPERF_READERS_HPP
#include "lazperf.hpp"
namespace lazperf
{
namespace reader
{
class generic_file
{
    std::istream &f_;
    header14 h_;
    bool compressed_{false};
    laz_vlr laz_;
    uint64_t eb_{0};
    std::unique_ptr<InFileStream> in_;
    las_decompressor::ptr dec_;
    std::vector<chunk> chunks_;
    size_t cur_{0};
    uint64_t in_chunk_{0};

    void need(const char *what)
    {
        if (!f_)
            throw error(std::string("Unexpected end of file while reading ") + what);
    }
    std::streamoff file_size()
    {
        auto here = f_.tellg();
        f_.seekg(0, std::ios::end);
        std::streamoff n = f_.tellg();
        f_.seekg(here);
        return n;
    }

  public:
    generic_file(std::istream &in) : f_(in) { open(); }
    const header14 &header() const { return h_; }
    uint64_t pointCount() const { return h_.point_count_14; }

    void open()
    {
        f_.seekg(0);
        h_ = header14::create(f_);
        if (std::memcmp(h_.magic, "LASF", 4) != 0)
            throw error("Invalid LAS file. Magic bytes are incorrect.");
        need("header");
        compressed_ = h_.compressed();
        if (h_.point_format_id & 0x40)
            throw error("Unsupported point format bits");
        h_.point_format_id &= 0x3f;
        int base = detail::base_size(h_.point_format_id);
        if (h_.point_record_length < base)
            throw error("Invalid point record length");
        eb_ = static_cast<uint64_t>(h_.point_record_length - base);
        if (!compressed_)
        {
            f_.seekg(h_.point_offset);
            return;
        }
        bool found = false;
        f_.seekg(h_.header_size);
        for (uint32_t i = 0; i < h_.vlr_count && !found; i++)
        {
            auto v = vlr_header::create(f_);
            need("VLR");
            if (v.user_id == "laszip encoded" && v.record_id == 22204)
            {
                std::vector<char> b(v.data_length, 0);
                f_.read(b.data(), static_cast<std::streamsize>(b.size()));
                need("LASZIP VLR");
                laz_.read(b.data(), b.size());
                found = true;
            }
            else
                f_.seekg(v.data_length, std::ios::cur);
        }
        if (!found)
            throw error("Couldn't find LASZIP VLR");
        if (!laz_.valid())
            throw error("LASZIP format unsupported - invalid compressor version.");
        uint64_t items = 0;
        for (auto &it : laz_.items)
            items += it.size;
        if (items != h_.point_record_length)
            throw error("LASZIP items do not match the point record length");
        // chunk table
        f_.seekg(h_.point_offset);
        int64_t at = 0;
        f_.read(reinterpret_cast<char *>(&at), 8);
        need("chunk table offset");
        auto size = file_size();
        if (at <= 0 || at >= size)
            throw error("Invalid chunk table offset");
        f_.seekg(at);
        uint32_t ver = 1, n = 0;
        f_.read(reinterpret_cast<char *>(&ver), 4);
        f_.read(reinterpret_cast<char *>(&n), 4);
        need("chunk table");
        if (ver != 0)
            throw error("Invalid chunk table version");
        {
            InFileStream s(f_);
            chunks_ = decompress_chunk_table(s.cb(), n, laz_.chunk_size == UINT32_MAX);
        }
        f_.clear();
        f_.seekg(static_cast<std::streamoff>(h_.point_offset) + 8);
        need("points");
        in_ = std::make_unique<InFileStream>(f_);
    }

    void readPoint(char *out)
    {
        if (!compressed_)
        {
            f_.read(out, h_.point_record_length);
            need("point");
            return;
        }
        if (!dec_ || in_chunk_ == chunks_[cur_ - 1].count)
        {
            do
            {
                if (cur_ >= chunks_.size())
                    throw error("Attempt to read past the last chunk.");
                cur_++;
            } while (chunks_[cur_ - 1].count == 0);
            dec_ = build_las_decompressor(in_->cb(), h_.point_format_id, static_cast<int>(eb_));
            in_chunk_ = 0;
        }
        dec_->decompress(out);
        in_chunk_++;
    }
};
} // namespace reader
} // namespace lazperf
#endif
