// BMP, dbmp and hsv files: what is written is read back.  The file system is modelled as one file (VERIFY);
// natively the contracts run in a scratch directory.
#include "img.h"
#include "image_io.cpp"
#ifdef VK_REPLAY
#include <unistd.h>
#include <cstdio>
//  the handles this process holds on the contracts' files
static int open_files()
{
    int n = 0;
    for (int d = 3; d < 256; ++d)
    {
        char name[4096];
        const auto k = readlink(("/proc/self/fd/" + std::to_string(d)).c_str(), name, sizeof name);
        if (k > 0 && std::string_view(name, k).find("vk_img") != std::string_view::npos) ++n;
    }
    return n;
}
#else
extern "C" int vk_open_files_() noexcept;
static int open_files() { return vk_open_files_(); }
#endif
constexpr std::size_t ROWMAX = (std::size_t{1} << 31) - 1;
//  sizes whose byte count fits the int arithmetic of the format code
#define FILEDIMS DIMS; ASSUME((3 * W + 3) * H <= ROWMAX / 8)
CONTRACT(C08_raw)
{
    FILEDIMS;
    const auto in = vk::image<RGB>("in", W, H);
    unsigned char* raw = TinyDIP::array_to_raw_image(in);
    PROBE;
    const std::size_t c = vk::size("c", 0, 2), stride = 3 * W + W % 4;
    ASSERT(stride % 4 == 0, "raw.row-multiple-of-4");
    ASSERT(raw[py * stride + 3 * px + 2 - c] == in.at(px, py).channels[c], "raw.bgr-bottom-up");
    if (W % 4)
    {
        const std::size_t p = vk::size("p", 0, W % 4 - 1);
        ASSERT(raw[py * stride + 3 * W + p] == 0, "raw.padding-zero");
    }
    free(raw);
}
CONTRACT(C08_unraw)
{
    FILEDIMS;
    const std::size_t stride = 3 * W + W % 4;
    std::vector<unsigned char> raw(stride * H);
    vk::fill(raw, "raw");
    const auto out = TinyDIP::raw_image_to_array(W, H, raw.data());
    ASSERT(out.getWidth() == W && out.getHeight() == H, "unraw.shape");
    PROBE;
    const std::size_t c = vk::size("c", 0, 2);
    ASSERT(out.at(px, py).channels[c] == raw[py * stride + 3 * px + 2 - c], "unraw.bgr-bottom-up");
}
CONTRACT(C08_bmp_round_trip)
{
    FILEDIMS;
    const auto in = vk::image<RGB>("in", W, H);
    const int before = open_files();
    ASSERT(TinyDIP::bmp_write("vk_img", in) == 0, "bmp.write-succeeds");
    const auto out = TinyDIP::bmp_read("vk_img.bmp", true);
    ASSERT(open_files() == before, "bmp.files-closed");
    ASSERT(out.getWidth() == W && out.getHeight() == H, "bmp.shape");
    PROBE;
    const std::size_t c = vk::size("c", 0, 2);
    ASSERT(out.at(px, py).channels[c] == in.at(px, py).channels[c], "bmp.round-trip");
}
static unsigned byte_of(const std::vector<unsigned char>& v, std::size_t i) { return v[i]; }
//  the whole file, as bytes
static std::vector<unsigned char> file_bytes(const char* name, std::size_t n)
{
    std::vector<unsigned char> v(n);
    FILE* f = fopen(name, "rb");
    ASSERT(f != nullptr, "file.exists");
    const std::size_t got = fread(v.data(), 1, n, f);
    ASSERT(got == n, "file.length");
    unsigned char more;
    ASSERT(fread(&more, 1, 1, f) == 0, "file.no-more");
    fclose(f);
    return v;
}
static void put_file(const char* name, const std::vector<unsigned char>& v)
{
    FILE* f = fopen(name, "wb");
    fwrite(v.data(), 1, v.size(), f);
    fclose(f);
}
static void put32(std::vector<unsigned char>& v, std::size_t at, std::size_t x)
{
    v[at] = x & 255; v[at + 1] = (x >> 8) & 255; v[at + 2] = (x >> 16) & 255; v[at + 3] = (x >> 24) & 255;
}
#define LE32(v, at) (v[at] + 256ull * v[(at) + 1] + 65536ull * v[(at) + 2] + 16777216ull * v[(at) + 3])
CONTRACT(C08_bmp_layout)
{
    FILEDIMS;
    const auto in = vk::image<RGB>("in", W, H);
    TinyDIP::bmp_write("vk_img", in);
    const std::size_t stride = 3 * W + W % 4;
    const auto v = file_bytes("vk_img.bmp", 54 + stride * H);
    ASSERT(v[0] == 'B' && v[1] == 'M', "bmp.magic");
    ASSERT(LE32(v, 2) == 54 + stride * H, "bmp.header-file-size");
    ASSERT(LE32(v, 10) == 54 && LE32(v, 14) == 40, "bmp.offsets");
    ASSERT(LE32(v, 18) == W && LE32(v, 22) == H, "bmp.header-size");
    ASSERT(v[26] == 1 && v[27] == 0 && v[28] == 24 && v[29] == 0 && LE32(v, 30) == 0, "bmp.24-bit-uncompressed");
    PROBE;
    const std::size_t c = vk::size("c", 0, 2);
    ASSERT(v[54 + py * stride + 3 * px + 2 - c] == in.at(px, py).channels[c], "bmp.pixel-bytes");
}
//  any 24-bit file, with whatever lies between header and pixels
CONTRACT(C08_bmp_read_24)
{
    FILEDIMS;
    const std::size_t off = vk::size("off", 54, 54 + vk::MAXDIM), stride = 3 * W + W % 4;
    std::vector<unsigned char> v(off + stride * H);
    vk::fill(v, "file");
    put32(v, 10, off); put32(v, 18, W); put32(v, 22, H); v[28] = 24; v[29] = 0;
    put_file("vk_img.bmp", v);
    const int before = open_files();
    const auto out = TinyDIP::bmp_read("vk_img", false);
    ASSERT(open_files() == before, "bmp.files-closed");
    ASSERT(out.getWidth() == W && out.getHeight() == H, "bmp24.shape");
    PROBE;
    const std::size_t c = vk::size("c", 0, 2);
    ASSERT(out.at(px, py).channels[c] == v[off + py * stride + 3 * px + 2 - c], "bmp24.pixel");
}
CONTRACT(C08_bmp_read_top_down)
{
    FILEDIMS;
    ASSUME(H > 1);          // a height of -1 is taken for an unreadable file
    const std::size_t stride = 3 * W + W % 4;
    std::vector<unsigned char> v(54 + stride * H);
    vk::fill(v, "file");
    put32(v, 10, 54); put32(v, 18, W); put32(v, 22, (std::size_t{1} << 32) - H); v[28] = 24; v[29] = 0;
    put_file("vk_img.bmp", v);
    const int before = open_files();
    const auto out = TinyDIP::bmp_read("vk_img.bmp", true);
    ASSERT(open_files() == before, "bmp.files-closed");
    ASSERT(out.getWidth() == W && out.getHeight() == H, "bmp-top-down.shape");
    PROBE;
    const std::size_t c = vk::size("c", 0, 2);
    ASSERT(out.at(px, py).channels[c] == v[54 + (H - 1 - py) * stride + 3 * px + 2 - c], "bmp-top-down.pixel");
}
BOUNDED(B08_bmp_read_8)
{
    FILEDIMS;
    const std::size_t colours = vk::size("colours", 1, 256), off = 54 + 4 * colours, stride = (W + 3) / 4 * 4;
    std::vector<unsigned char> v(off + stride * H);
    vk::fill(v, "file");
    put32(v, 10, off); put32(v, 14, 40); put32(v, 18, W); put32(v, 22, H); v[28] = 8; v[29] = 0;
    put_file("vk_img.bmp", v);
    const auto out = TinyDIP::bmp_read("vk_img.bmp", true);
    ASSERT(out.getWidth() == W && out.getHeight() == H, "bmp8.shape");
    PROBE;
    const std::size_t c = vk::size("c", 0, 2), index = v[off + py * stride + px];
    ASSERT(out.at(px, py).channels[c] == (index < colours ? v[54 + 4 * index + 2 - c] : 0), "bmp8.palette-colour");
}
CONTRACT(C08_dbmp_round_trip)
{
    FILEDIMS;
    const auto in = vk::image<double>("in", W, H);
    const int before = open_files();
    ASSERT(TinyDIP::double_image::write("vk_img", in) == 0, "dbmp.write-succeeds");
    const auto out = TinyDIP::double_image::read("vk_img.dbmp", true);
    ASSERT(open_files() == before, "dbmp.files-closed");
    ASSERT(out.getWidth() == W && out.getHeight() == H, "dbmp.shape");
    PROBE;
    ASSERT(vk::same(out.at(px, py), in.at(px, py)), "dbmp.round-trip");
}
CONTRACT(C08_hsv_round_trip)
{
    FILEDIMS;
    const auto in = vk::image<HSV>("in", W, H);
    const int before = open_files();
    ASSERT(TinyDIP::hsv_write("vk_img", in) == 0, "hsv.write-succeeds");
    const auto out = TinyDIP::hsv_read("vk_img.hsv", true);
    ASSERT(open_files() == before, "hsv.files-closed");
    ASSERT(out.getWidth() == W && out.getHeight() == H, "hsv.shape");
    PROBE;
    ASSERT(vk::same(out.at(px, py), in.at(px, py)), "hsv.round-trip");
}
CONTRACT(C08_missing)
{
#ifdef VK_REPLAY
    remove("vk_img.bmp"); remove("vk_img.dbmp"); remove("vk_img.hsv");
#endif
    ASSERT(vk::outcome([] { TinyDIP::bmp_read("vk_img.bmp", true); }) == vk::RUNTIME_ERROR, "bmp.missing-throws");
    const auto d = TinyDIP::double_image::read("vk_img.dbmp", true);
    ASSERT(d.count() == 0, "dbmp.missing-is-empty");
    const auto h = TinyDIP::hsv_read("vk_img.hsv", true);
    ASSERT(h.count() == 0, "hsv.missing-is-empty");
}
//  the pixel stage of the PNM reader: raw values (one or three per pixel, top row first) to the image
template<int KIND, int shift = 0> static void pnm_pixels()
{
    DIMS;
    ASSUME(W * H <= vk::MAXDIM * vk::MAXDIM / 4);
    std::vector<int> raw(KIND == 3 ? 3 * W * H : W * H);
    vk::fill(raw, "raw");
    const std::string magic(KIND == 1 ? "P1" : KIND == 2 ? "P2" : "P3");
    Image<RGB> out(W, H);
    const TinyDIP::pnm::ProcessPPMData f{ raw, magic, shift, W, H, out };
    for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x) f(y * W + x);
    PROBE;
    const std::size_t c = vk::size("c", 0, 2), at = (H - 1 - py) * W + px;
    const int v = raw[KIND == 3 ? 3 * at + c : at];
    ASSUME(v >= 0 && v <= 65535);
    if (KIND == 1) ASSERT((out.at(px, py).channels[c] != 0) == (v == 0), "pnm.bit-inverted");
    else
        ASSERT(out.at(px, py).channels[c] == static_cast<std::uint8_t>(shift >= 0 ? v * (1 << std::max(shift, 0)) : v / (1 << std::max(-shift, 0))), "pnm.value");
}
CONTRACT(C08_pnm_p1) { pnm_pixels<1>(); }
CONTRACT(C08_pnm_p2) { pnm_pixels<2>(); }
CONTRACT(C08_pnm_p3) { pnm_pixels<3>(); }
CONTRACT(C08_pnm_p2_up) { pnm_pixels<2, 4>(); }
CONTRACT(C08_pnm_p3_down) { pnm_pixels<3, -8>(); }
#ifdef VK_REPLAY
template<class F, class G> static void pnm_round_trip(F write, G read)
{
    FILEDIMS;
    const auto in = vk::image<RGB>("in", W, H);
    const int kind = static_cast<int>(vk::size("kind", 1, 3));
    write(in, kind == 1 ? "P1" : kind == 2 ? "P2" : "P3");
    const auto out = read();
    ASSERT(out.getWidth() == W && out.getHeight() == H, "pnm.shape");
    for (std::size_t y = 0; y < H; ++y)
        for (std::size_t x = 0; x < W; ++x)
            for (int c = 0; c < 3; ++c)
                if (kind == 1) ASSERT((out.at(x, y).channels[c] == 0) == (in.at(x, y).channels[0] == 0), "pnm.p1-round-trip");
                else ASSERT(out.at(x, y).channels[c] == in.at(x, y).channels[kind == 2 ? 0 : c], "pnm.round-trip");
}
#endif
BOUNDED(B08_pnm)
{
#ifdef VK_REPLAY
    pnm_round_trip([](const Image<RGB>& i, const char* m) { TinyDIP::pnm::write(i, "vk_img.ppm", m); }, [] { return TinyDIP::pnm::read("vk_img.ppm"); });
#endif
}
BOUNDED(B08_pnm_par)
{
#ifdef VK_REPLAY
    pnm_round_trip([](const Image<RGB>& i, const char* m) { TinyDIP::pnm::write(i, "vk_img.ppm", m); }, [] { return TinyDIP::pnm::read(std::execution::par, "vk_img.ppm"); });
#endif
}
BOUNDED(B08_pnm_truncated)
{
#ifdef VK_REPLAY
    const std::size_t W = vk::size("W", 1, 5), H = vk::size("H", 1, 5), n = vk::size("n", 0, 3 * W * H - 1);
    {
        std::ofstream f("vk_img.ppm");
        f << "P3\n# comment\n" << W << ' ' << H << "\n255\n";
        for (std::size_t i = 0; i < n; ++i) f << i % 256 << (i % 7 ? " " : "\n#c\n");
    }
    ASSERT(vk::outcome([] { TinyDIP::pnm::read("vk_img.ppm"); }) == vk::RUNTIME_ERROR, "pnm.truncated-throws");
#endif
}
#ifdef VK_REPLAY
template<class T> static void csv_round_trip()
{
    const std::size_t W = vk::size("W", 1, 40), H = vk::size("H", 1, 40);
    auto in = vk::image<int>("in", W, H);
    std::vector<T> v;
    for (std::size_t i = 0; i < W * H; ++i) v.push_back(std::is_integral_v<T> ? static_cast<T>(in.at(i % W, i / W)) : static_cast<T>(in.at(i % W, i / W) % 100000) / 4);
    const Image<T> img(v, W, H);
    const bool par = vk::size("par", 0, 1);
    if (par) TinyDIP::double_image::write_to_csv(std::execution::par, "vk_img.csv", img, std::is_integral_v<T> ? -1 : 2);
    else TinyDIP::double_image::write_to_csv("vk_img.csv", img, std::is_integral_v<T> ? -1 : 2);
    const Image<T> out = par ? TinyDIP::double_image::read_from_csv<decltype((std::execution::par)), T>(std::execution::par, "vk_img.csv") : TinyDIP::double_image::read_from_csv<T>("vk_img.csv");
    ASSERT(out.getWidth() == W && out.getHeight() == H, "csv.shape");
    for (std::size_t i = 0; i < W * H; ++i) ASSERT(out.at(i % W, i / W) == v[i], "csv.round-trip");
}
#endif
BOUNDED(B08_csv)
{
#ifdef VK_REPLAY
    csv_round_trip<double>(); 
#endif
}
BOUNDED(B08_csv_int)
{
#ifdef VK_REPLAY
    csv_round_trip<int>();
#endif
}
