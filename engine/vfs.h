// In-memory file system. Paths are normalised to "C:\dir\name"; lookups are case-insensitive as on Windows.
typedef struct VF { char *name; u8 *data; u64 size, cap; char *real; int out, readonly; u32 id; u32 hash; } VF;
static VF **vfs; static u32 vfs_n, vfs_cap; static char **vfs_dirs; static u32 vfs_nd, vfs_cd;
static u32 vfs_tab_cap; static u32 *vfs_tab;
static u32 vfs_hash(const char *s){ u32 h = 5381; for(; *s; s++){ u8 c = (u8)*s; if(c >= 'A' && c <= 'Z') c += 32; h = h * 33 + c; } return h; }
static void vfs_norm(const char *cwd, const char *in, char *out, u64 cap){
    char tmp[1400]; if((in[0] && in[1] == ':')) snprintf(tmp, sizeof tmp, "%s", in); else if(in[0] == '\\' || in[0] == '/') snprintf(tmp, sizeof tmp, "C:%s", in); else snprintf(tmp, sizeof tmp, "%s\\%s", cwd, in);
    char *seg[200]; int ns = 0; char *s = tmp; 
    while(*s){ while(*s == '/' || *s == '\\') *s++ = 0; if(!*s) break; char *b = s; while(*s && *s != '/' && *s != '\\') s++; char sv = *s; if(sv) *s++ = 0; if(!strcmp(b, ".")) continue; if(!strcmp(b, "..")){ if(ns > 1) ns--; continue; } if(ns < 200) seg[ns++] = b; }
    u64 o = 0; out[0] = 0; for(int i = 0; i < ns; i++){ int k = snprintf(out + o, cap - o, "%s%s", i ? "\\" : "", seg[i]); if(k < 0 || o + (u64)k >= cap){ out[cap - 1] = 0; return; } o += (u64)k; } }
static void vfs_rehash(void){ vfs_tab_cap = vfs_tab_cap ? vfs_tab_cap * 2 : 1024; free(vfs_tab); vfs_tab = calloc(vfs_tab_cap, 4); for(u32 i = 0; i < vfs_n; i++){ u32 h = vfs[i]->hash; while(vfs_tab[h & (vfs_tab_cap - 1)]) h++; vfs_tab[h & (vfs_tab_cap - 1)] = i + 1; } }
static VF *vfs_find(const char *p){ if(!vfs_tab) return 0; u32 h0 = vfs_hash(p), h = h0; for(;; h++){ u32 i = vfs_tab[h & (vfs_tab_cap - 1)]; if(!i) return 0; VF *f = vfs[i - 1]; if(f->hash == h0 && !strcasecmp(f->name, p)) return f; } }
static int vfs_is_dir(const char *p){ u64 l = strlen(p); while(l && p[l - 1] == '\\') l--; for(u32 i = 0; i < vfs_nd; i++) if(strlen(vfs_dirs[i]) == l && !strncasecmp(vfs_dirs[i], p, l)) return 1; return 0; }
static void vfs_mkdir(const char *p){ char b[600]; snprintf(b, sizeof b, "%s", p); for(;;){ if(vfs_is_dir(b)) return; if(vfs_nd == vfs_cd){ vfs_cd = vfs_cd ? vfs_cd * 2 : 64; vfs_dirs = realloc(vfs_dirs, vfs_cd * sizeof *vfs_dirs); } vfs_dirs[vfs_nd++] = strdup(b); char *s = strrchr(b, '\\'); if(!s) return; *s = 0; } }
static int vfs_parent_ok(const char *p){ char b[600]; snprintf(b, sizeof b, "%s", p); char *s = strrchr(b, '\\'); if(!s) return 0; *s = 0; return vfs_is_dir(b); }
static VF *vfs_add(const char *p, u8 *data, u64 size){ VF *f = calloc(1, sizeof *f); f->name = strdup(p); f->data = data; f->size = size; f->id = vfs_n + 1000; f->hash = vfs_hash(p); char b[600]; snprintf(b, sizeof b, "%s", p); char *s = strrchr(b, '\\'); if(s){ *s = 0; vfs_mkdir(b); }
    if(vfs_n == vfs_cap){ vfs_cap = vfs_cap ? vfs_cap * 2 : 256; vfs = realloc(vfs, vfs_cap * sizeof *vfs); } vfs[vfs_n++] = f; if((vfs_n + 1) * 2 > vfs_tab_cap) vfs_rehash(); else { u32 h = f->hash; while(vfs_tab[h & (vfs_tab_cap - 1)]) h++; vfs_tab[h & (vfs_tab_cap - 1)] = vfs_n; } return f; }
static void vfs_load(VF *f){ if(f->data || !f->real) return; int fd = open(f->real, O_RDONLY); if(fd < 0) return; f->data = f->size ? mmap(0, f->size, 3, MAP_PRIVATE, fd, 0) : (u8 *)""; close(fd); }
static void vfs_mount(const char *real, const char *virt){ struct stat st; if(stat(real, &st)) return; if(S_ISDIR(st.st_mode)){ vfs_mkdir(virt); DIR *d = opendir(real); struct dirent **l; closedir(d); int n = scandir(real, &l, 0, alphasort); for(int i = 0; i < n; i++){ if(l[i]->d_name[0] == '.') continue; char r[2000], v[2000]; snprintf(r, sizeof r, "%s/%s", real, l[i]->d_name); snprintf(v, sizeof v, "%s\\%s", virt, l[i]->d_name); vfs_mount(r, v); } } else { VF *f = vfs_add(virt, 0, (u64)st.st_size); f->real = strdup(real); f->readonly = 1; } }
static int vfs_wild(const char *p, const char *s){ if(!*p) return !*s; if(*p == '*') { if(!strcmp(p, "*.*")) return 1; return vfs_wild(p + 1, s) || (*s && vfs_wild(p, s + 1)); } if(!*s) return 0; if(*p == '?' || ((*p | 32) == (*s | 32))) return vfs_wild(p + 1, s + 1); return 0; }
static u32 vfs_list(const char *dir, const char *wild, char ***names, u64 **szs, int **dirs){ u32 n = 0, cap = 0; *names = 0; *szs = 0; *dirs = 0; u64 dl = strlen(dir); if(!vfs_is_dir(dir)) return 0;
#define PUSH(nm, sz, isd) do { if(n == cap){ cap = cap ? cap * 2 : 16; *names = realloc(*names, cap * 8); *szs = realloc(*szs, cap * 8); *dirs = realloc(*dirs, cap * 4); } (*names)[n] = (char *)(nm); (*szs)[n] = (sz); (*dirs)[n] = (isd); n++; } while(0)
    if(!strcmp(wild, "*")){ PUSH(".", 0, 1); PUSH("..", 0, 1); }
    for(u32 i = 0; i < vfs_nd; i++){ char *d = vfs_dirs[i]; if(!strncasecmp(d, dir, dl) && d[dl] == '\\' && !strchr(d + dl + 1, '\\') && vfs_wild(wild, d + dl + 1)) PUSH(d + dl + 1, 0, 1); }
    for(u32 i = 0; i < vfs_n; i++){ char *d = vfs[i]->name; if(!strncasecmp(d, dir, dl) && d[dl] == '\\' && !strchr(d + dl + 1, '\\') && vfs_wild(wild, d + dl + 1)) PUSH(d + dl + 1, vfs[i]->size, 0); }
    return n; }
