/* Shared by D02/D04 (loading): files as saved, damaged in any way, or loaded while system calls and allocations fail. */
#define PAGE 4096u
static uint8_t *img, *img2; static size_t nimg, nimg2;
static void grab(uint8_t **d, size_t *n, const char *p) { size_t z; const void *c = os_content(p, &z); free(*d); *d = malloc(z + 1); memcpy(*d, c, z); *n = z; }
static uint8_t buf[1 << 18]; static size_t nbuf;
static void damage(void)
{
    nbuf = nimg; memcpy(buf, img, nimg);
    switch (ch(9)) {
    case 0: nbuf = ch((uint32_t)nimg); ev("truncated to %zu", nbuf); break;
    case 1: { unsigned x = 1 + ch(ch(2) ? 64 : 5000); prng g = { ch_seed() }; int z = (int)ch(2); for (unsigned i = 0; i < x; i++) buf[nbuf++] = z ? 0 : (uint8_t)prng_next(&g); ev("extended by %u", x); break; }
    case 2: { unsigned n = 1 + ch(3); for (unsigned i = 0; i < n; i++) { unsigned k = ch(2) ? ch((uint32_t)nimg) : ch(nimg < 160 ? (uint32_t)nimg : 160); buf[k] ^= (uint8_t)(1u << ch(8)); ev("bit flipped at %u", k); } break; }
    case 3: { unsigned n = 1 + ch(16), at = ch((uint32_t)nimg); prng g = { ch_seed() }; for (unsigned i = 0; i < n && at + i < nbuf; i++) buf[at + i] = (uint8_t)prng_next(&g); ev("%u bytes overwritten at %u", n, at); break; }
    case 4: { size_t at = (ch((uint32_t)(nimg / 512) + 1)) * 512, l = (1 + ch(8)) * 512; for (size_t i = at; i < at + l && i < nbuf; i++) buf[i] = 0; ev("%zu bytes zeroed at %zu", l, at); break; }
    case 5: { unsigned s = 1 + ch(16); for (size_t k = 0; k * 512 < nbuf; k++) if ((k / s) & 1) for (size_t i = k * 512; i < k * 512 + 512 && i < nbuf; i++) buf[i] = i < nimg2 ? img2[i] : 0; ev("torn with another file"); break; }
    case 6: { size_t cut = ch((uint32_t)nimg + 1); nbuf = nimg2; memcpy(buf, img2, nimg2); for (size_t i = 0; i < cut && i < nbuf; i++) buf[i] = img[i]; ev("first %zu bytes over another file", cut); break; }
    case 7: { unsigned l = ch(3) == 0 ? 0 : ch(6000); prng g = { ch_seed() }; for (nbuf = 0; nbuf < l; nbuf++) buf[nbuf] = (uint8_t)prng_next(&g); if (ch(2) && nbuf > 8) memcpy(buf, img, 8); ev("%zu bytes of rubbish", nbuf); break; }
    case 8: { size_t a = ch((uint32_t)nimg), b = ch((uint32_t)nimg), l = 1 + ch(64); if (a + l <= nimg && b + l <= nimg) memmove(buf + a, img + b, l); ev("moved inside"); break; }
    }
}
static int original(void) { return (nbuf == nimg && !memcmp(buf, img, nbuf)) || (nbuf == nimg2 && !memcmp(buf, img2, nbuf)); }
/* another process replaces or removes the file while it is loaded */
static unsigned sw_at, sw_seen; static int sw_how;
static void swap_call(const char *call)
{
    if (++sw_seen != sw_at) return;
    os_hook = 0; if (sw_how) os_rm("/d/f"); else os_mv("/d/g", "/d/f");
    ev("before %s: another process %s the file", call, sw_how ? "removes" : "replaces"); fault_note("other-process");
}
static void load_run(void)
{
    os_reset(); os_low_fds(); os_hook = 0; obj_any = 0; os_mkdir("/d", 0755);
    obj_choose(); size_t base = os_heap_live(); 
    void *o = obj_build(); char desc[200]; obj_describe(desc, sizeof desc); 
    int r = obj_save(o, "/d/f"); CHECK(r == 0, "spurious-failure", "saving failed with %d", r);
    grab(&img, &nimg, "/d/f"); if (nimg > sizeof buf / 2) discard();
    size_t h0 = os_heap_live(); unsigned fds = os_open_fds(), maps = os_live_maps();
    int mapped = (int)ch(2), mode = (int)ch(5), f; void *x = (void*)0x55; const char *path = "/d/f";
    ev("%s, %zu bytes, mapped %d mode %d", desc, nimg, mapped, mode);
    if (mode == 2) {
        obj_fixup_model(1); void *p = obj_build2(); obj_save(p, "/d/g"); grab(&img2, &nimg2, "/d/g"); obj_delete(p); if (nimg2 > sizeof buf / 2) discard();
        damage(); if (original()) { obj_delete(o); return; }
        os_put("/d/f", buf, nbuf, 0644); os_cfg.io = ch(4) == 3; os_cfg.alloc = ch(4) == 3;
        r = obj_load(path, mapped, &x); os_cfg.io = os_cfg.alloc = 0;
        CHECK(r < 0, "damage-accepted", "a damaged file is loaded (%d)", r);
        tally("damaged_files", 1);
        CHECK(os_heap_live() == h0, "leak", "refusing a damaged file leaves %ld blocks", (long)os_heap_live() - (long)h0);
    } else if (mode == 3) {       /* consistent checksum over altered fields: any answer, but no crash and nothing read outside */
        nbuf = nimg; memcpy(buf, img, nimg); unsigned n = 1 + ch(3);
        for (unsigned i = 0; i < n; i++) obj_alter(buf, &nbuf);
        os_put("/d/f", buf, nbuf, 0644);
        r = obj_load(path, mapped, &x); ev("altered -> %d", r);
        CHECK(r <= 0, "return-code", "loading returned %d", r);
        if (r == 0) { obj_use(x); obj_delete(x); tally("altered_accepted", 1); } else tally("altered_refused", 1);
        CHECK(os_heap_live() == h0, "leak", "loading an altered file (%d) leaves %ld blocks", r, (long)os_heap_live() - (long)h0);
    } else if (mode == 4) {
        void *p = obj_build2(); CHECK(obj_save(p, "/d/g") == 0, "spurious-failure", "saving failed"); size_t h1 = os_heap_live();
        sw_at = 1 + ch(9); sw_seen = 0; sw_how = ch(4) == 3; os_hook = swap_call;
        r = obj_load(path, mapped, &x); os_hook = 0;
        ev("load -> %d", r);
        if (r == 0) {
            CHECK(x && x != (void*)0x55, "return-code", "loading succeeded without an object");
            int a = obj_same(o, x); obj_any = 1; int b = obj_same(p, x); obj_any = 0;
            CHECK(a || (b && !sw_how && sw_seen >= sw_at), "different", "the loaded object is neither the one replaced nor the new one");
            if (a) obj_exercise(x, mapped);
            obj_delete(x);
        } else {
            CHECK(r < 0, "return-code", "a failed load returned %d", r);
            CHECK(sw_how && sw_seen >= sw_at, "spurious-failure", "loading failed with %d while another process replaces the file by a complete one", r);
        }
        CHECK(os_heap_live() == h1, "leak", "loading (%d) leaves %ld blocks", r, (long)os_heap_live() - (long)h1);
        obj_delete(p); tally("replaced_while_loading", sw_seen >= sw_at);
    } else {
        os_cfg.io = mode == 1; os_cfg.alloc = mode == 1; f = (int)os_fired("");
        if (ch(12) == 11) { path = ch(2) ? "/d/absent" : "/d"; }
        r = obj_load(path, mapped, &x); os_cfg.io = os_cfg.alloc = 0;
        ev("load -> %d", r);
        if (r == 0) {
            CHECK(!strcmp(path, "/d/f"), "phantom", "a file that isn't there is loaded");
            CHECK(x && x != (void*)0x55, "return-code", "loading succeeded without an object");
            CHECK(os_open_fds() == fds, "leak-fd", "loading leaves a descriptor open");
            CHECK(obj_same(o, x), "different", "the loaded object differs from the saved one (%s)", desc);
            if (!mapped) CHECK(os_live_maps() == maps, "leak-map", "loading into memory leaves a mapping");
            else if (ch(2)) { os_rm("/d/f"); CHECK(obj_same(o, x), "different", "the loaded object changes when its name goes away"); }
            obj_exercise(x, mapped);
            if (ch(2)) { obj_delete(o); o = 0; }
            obj_delete(x);
        } else {
            CHECK(r < 0, "return-code", "a failed load returned %d", r);
            CHECK(os_fired("") > (unsigned)f || strcmp(path, "/d/f"), "spurious-failure", "loading failed with %d without cause", r);
            CHECK(os_heap_live() == h0, "leak", "a failed load leaves %ld blocks", (long)os_heap_live() - (long)h0);
            tally("failed_loads", 1);
        }
    }
    CHECK(os_open_fds() == fds, "leak-fd", "loading (%d) leaves a descriptor open", r);
    CHECK(os_live_maps() == maps, "leak-map", "loading (%d) leaves a mapping", r);
    if (o) obj_delete(o);
    CHECK(os_heap_live() == base, "leak", "%ld blocks left", (long)os_heap_live() - (long)base);
    { static char nm[16][256]; unsigned n = os_list("/d", nm, 16); CHECK(n <= 2, "stray-file", "loading creates files"); }
    tally("loads", 1); cover(mix64(run_hash(), nimg)); run_nontrivial();
    sample("%s, %zu bytes, %s, %s -> %d", desc, nimg, mapped ? "mapped" : "into memory", mode == 2 ? "damaged" : mode == 3 ? "altered with a matching checksum" : mode == 1 ? "with failing calls" : "plain", r);
}
