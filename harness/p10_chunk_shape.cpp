// P10: the shape of the chunks in which object arrays are stored
#include "values.hpp"

using namespace mc;

// case: f <element sizes> <shape prefix>          all values of the last two extents are looped over in one case
//       d <type> <kind> <shape>                   chunks of the datasets created for a value

static std::vector<hsize_t> extents(std::string const& tier)
{
    std::vector<hsize_t> r{1, 2, 3, 4, 5, 7, 8, 9, 10, 31, 64, 99, 100, 101, 127, 255, 256, 500, 512, 513, 724, 1000,
        1023, 1024, 1025, 1049, 2000, 4096, 10240, 65536, 100000, 131071, 131072, 131073, 262144, 1048575, 1048576,
        1048577, 2000000, 16777216, 1073741824, 2147483648, 4294967296, 4294967299, 1099511627776};
    if (tier == "thorough")
    {
        for (hsize_t x : {6, 11, 12, 13, 15, 16, 17, 19, 25, 33, 50, 63, 65, 128, 200, 361, 362, 363, 723, 725, 1048, 5000,
             8191, 30000, 524287, 524288, 524289, 10000000})
        {
            r.push_back(x);
        }
        std::sort(r.begin(), r.end());
    }
    return r;
}

static std::vector<std::size_t> const sizes{1, 2, 4, 8, 3, 16, 100, 1000, 10240, 100000, 524288, 524289, 1048575, 1048576, 1048577, 3000000};

void enumerate(std::string const& tier, Emit const& emit)
{
    auto const e = extents(tier);
    emit("f 0 -");
    emit("f 1 -");
    emit("f 2 " + tier);
    for (auto x : e)
    {
        emit("f 3 " + tier + " " + std::to_string(x));
    }
    auto few = std::vector<hsize_t>{1, 2, 3, 10, 64, 100, 257, 1000, 1025, 2000, 70000, 1048576, 4294967297};
    for (auto x : few)
    {
        for (auto y : few)
        {
            emit("f 4 few " + std::to_string(x) + " " + std::to_string(y));
            if (tier == "thorough")
            {
                for (auto z : few)
                {
                    emit("f 5 few " + std::to_string(x) + " " + std::to_string(y) + " " + std::to_string(z));
                }
            }
        }
    }
    if (tier != "thorough")
    {
        for (auto x : {1, 3, 10, 64, 257})
        {
            for (auto y : {2, 10, 100, 2000})
            {
                for (auto z : {1, 10, 257})
                {
                    emit("f 5 few " + std::to_string(x) + " " + std::to_string(y) + " " + std::to_string(z));
                }
            }
        }
    }
    for (auto const& t : all_types)
    {
        for (std::string kind : {"sscs", "ssvs", "dscs"})
        {
            for (std::string s : {"-", "1", "3", "100x200", "1000x1500", "3000x1", "1x2000000", "2000000", "300x400x500", "2x3x4x5",
                     "1048576", "1048577", "131072", "100x100x100x100", "1025x1024", "10x3x1000x1000"})
            {
                emit("d " + t + " " + kind + " " + s);
            }
        }
    }
}

std::string crash_key(std::string const& c)
{
    return c.substr(0, 3);
}

static void judge(Rec& rec, Shape const& value, std::size_t esize, Shape const& chunk, std::string const& key)
{
    auto const limit = std::size_t{1048576};
    auto say = [&]() { return "value " + show_shape(value) + " of elements of " + std::to_string(esize) + " bytes: chunk " + show_shape(chunk); };
    if (chunk.size() != value.size() + 1)
    {
        rec.violation(key + " rank", say());
        return;
    }
    // Sizes in floating point: no overflow
    double vsize = esize, csize = esize;
    for (std::size_t i = 0; i < chunk.size(); ++i)
    {
        if (chunk[i] < 1)
        {
            rec.violation(key + " extent of zero", say());
            return;
        }
        if (i > 0 && chunk[i] > value[i - 1])
        {
            rec.violation(key + " extent larger than that of the value", say());
        }
        csize *= static_cast<double>(chunk[i]);
    }
    for (auto x : value)
    {
        vsize *= static_cast<double>(x);
    }
    if (esize <= limit && csize > static_cast<double>(limit))
    {
        rec.violation(key + " larger than the upper limit", say());
    }
    if (esize <= limit / 2 && csize < 10240.0)
    {
        rec.violation(key + " smaller than the lower limit", say());
    }
    if (vsize <= static_cast<double>(limit))
    {
        // Small values are not split, and as many as fit are combined
        for (std::size_t i = 1; i < chunk.size(); ++i)
        {
            if (chunk[i] != value[i - 1])
            {
                rec.violation(key + " small value is split", say());
            }
        }
        if (static_cast<double>(chunk[0] + 1) * vsize <= static_cast<double>(limit))
        {
            rec.violation(key + " more small values fit", say());
        }
    }
    else if (chunk[0] != 1)
    {
        rec.violation(key + " large values share chunks", say());
    }
    rec.outcome(show_shape(chunk));
}

static void function(Rec& rec, Shape value)
{
    for (auto esize : sizes)
    {
        double bytes = esize;
        for (auto x : value)
        {
            bytes *= static_cast<double>(x);
        }
        if (bytes > 9e18)
        {
            continue;  // Larger than what can be addressed
        }
        judge(rec, value, esize, lh5::chunk_shape(value, esize), "chunk_shape:");
        rec.trans();
    }
    rec.state(show_shape(value));
}

static Shape chunk_of(lh5::Dataset const& d)
{
    hid_t p = H5Dget_create_plist(d.id());
    hsize_t dims[32];
    int n = H5Pget_layout(p) == H5D_CHUNKED ? H5Pget_chunk(p, 32, dims) : 0;
    H5Pclose(p);
    return n < 0 ? Shape{} : Shape(dims, dims + n);
}

template<typename T>
static void dataset(Rec& rec, std::string const& c, std::string const& kind, Shape const& shape)
{
    auto ds = ldm::create_dataset(rec.scratch + "/d.lue");
    auto& p = ds.add_phenomenon("p").property_sets().add("s").properties();
    lh5::Datatype const dt{lh5::native_datatype<T>()};
    std::size_t const esize = sizeof(T);
    if (kind == "sscs")
    {
        auto& v = p.add<ldm::same_shape::Property>("x", dt, shape).value();
        v.expand(3);
        judge(rec, shape, esize, chunk_of(v), c + ":");
    }
    if (kind == "ssvs")
    {
        auto& v = p.add<ldm::same_shape::constant_shape::Property>("x", dt, shape).value();
        v.expand(3);
        judge(rec, shape, esize, chunk_of(v), c + ":");
    }
    if (kind == "dscs" && size_of(shape) < 10000000)
    {
        auto& v = p.add<ldm::same_shape::variable_shape::Property>("x", dt, static_cast<ldm::Rank>(shape.size())).value();
        auto a = v.expand(0, 2, shape);
        judge(rec, shape, esize, chunk_of(a), c + ":");
    }
    rec.trace();
}

void run(std::string const& c, Rec& rec)
{
    auto w = words(c);
    if (w[0] == "d")
    {
        with_type(w[1], [&](auto t) { dataset<decltype(t)>(rec, w[0] + " " + w[2], w[2], parse_shape(w[3])); });
        return;
    }
    Shape s;
    for (std::size_t i = 3; i < w.size(); ++i)
    {
        s.push_back(std::stoull(w[i]));
    }
    auto const rank = std::stoul(w[1]);
    if (rank == 0)
    {
        function(rec, {});
        return;
    }
    if (rank == 1)
    {
        for (hsize_t x = 1; x < 3000000; x += x < 3000 ? 1 : 997)
        {
            function(rec, {x});
        }
        return;
    }
    auto const e = w[2] == "few" ? std::vector<hsize_t>{1, 2, 3, 10, 64, 100, 257, 1000, 1025, 2000, 70000, 1048576} : extents(w[2]);
    for (auto x : e)
    {
        for (auto y : e)
        {
            auto t = s;
            t.push_back(x);
            t.push_back(y);
            if (w[2] == "few" || rank < 4)
            {
                function(rec, t);
            }
        }
    }
}

MC_MAIN
