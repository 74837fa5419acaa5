//! C programs to work on: snippets from corpus/, renamed and combined.
use crate::os::Rng;
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub fn all() -> &'static Vec<String> {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    C.get_or_init(|| load("c.jsonl"))
}
pub fn bad() -> &'static Vec<String> {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    C.get_or_init(|| load("err.jsonl"))
}
fn load(f: &str) -> Vec<String> {
    let p = crate::runner::root().join("corpus").join(f);
    std::fs::read_to_string(&p)
        .unwrap_or_else(|e| panic!("{}: {e}", p.display()))
        .lines()
        .map(|l| serde_json::from_str::<serde_json::Value>(l).unwrap()["s"].as_str().unwrap().to_string())
        .collect()
}

const KEEP: &str = "auto break case char const continue default do double else enum extern float for goto if inline int long register \
restrict return short signed sizeof static struct switch typedef union unsigned void volatile while _Bool bool true false NULL \
size_t ssize_t ptrdiff_t intptr_t uintptr_t int8_t int16_t int32_t int64_t uint8_t uint16_t uint32_t uint64_t FILE EOF stdin stdout \
stderr errno printf fprintf sprintf snprintf scanf sscanf fscanf puts putchar getchar gets fgets fputs fopen fclose fread fwrite \
fgetc fputc fseek ftell rewind feof ferror fflush perror remove rename tmpfile malloc calloc realloc free exit abort atoi atof atol \
strtol strtoul strtod rand srand qsort bsearch abs labs strlen strcpy strncpy strcat strncat strcmp strncmp strchr strrchr strstr \
strtok strdup memcpy memmove memset memcmp memchr strerror isalpha isdigit isalnum isspace isupper islower toupper tolower ispunct \
sqrt pow sin cos tan exp log log10 fabs floor ceil fmod time clock difftime localtime gmtime mktime strftime va_list va_start va_arg \
va_end va_copy assert INT_MAX INT_MIN UINT_MAX LONG_MAX CHAR_BIT SIZE_MAX SEEK_SET SEEK_END SEEK_CUR pthread_t pthread_mutex_t \
pthread_cond_t pthread_create pthread_join pthread_mutex_lock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy \
pthread_cond_wait pthread_cond_signal pthread_cond_init PTHREAD_MUTEX_INITIALIZER __attribute__ defined class public private \
protected namespace template new delete this virtual override operator using";

/// The same program with every name of its own changed by a suffix.
pub fn renamed(src: &str, suffix: &str) -> String {
    rename(src, &|w| format!("{w}{suffix}"))
}
/// The same program with the case of the first letter of every name of its own changed.
pub fn recased(src: &str) -> String {
    rename(src, &|w| {
        let (a, b) = w.split_at(1);
        if a.to_lowercase() == a { a.to_uppercase() + b } else { a.to_lowercase() + b }
    })
}
fn rename(src: &str, new: &dyn Fn(&str) -> String) -> String {
    let keep: BTreeSet<&str> = KEEP.split_whitespace().collect();
    let mut out = String::new();
    for line in src.lines() {
        let t = line.trim_start();
        if t.starts_with("#include") || t.starts_with("#pragma") {
            out.push_str(line);
            out.push('\n');
            continue;
        }
        let b: Vec<char> = line.chars().collect();
        let mut i = 0;
        let mut directive = t.starts_with('#');
        while i < b.len() {
            let c = b[i];
            if c == '"' || c == '\'' {
                let q = c;
                out.push(c);
                i += 1;
                while i < b.len() && b[i] != q {
                    if b[i] == '\\' && i + 1 < b.len() {
                        out.push(b[i]);
                        i += 1;
                    }
                    out.push(b[i]);
                    i += 1;
                }
                if i < b.len() {
                    out.push(b[i]);
                    i += 1;
                }
            } else if c.is_ascii_alphabetic() || c == '_' {
                let s = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                    i += 1;
                }
                let w: String = b[s..i].iter().collect();
                if directive {
                    directive = false;
                    out.push_str(&w);
                } else if keep.contains(w.as_str()) {
                    out.push_str(&w);
                } else {
                    out.push_str(&new(&w));
                }
            } else if c.is_ascii_digit() {
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '.') {
                    out.push(b[i]);
                    i += 1;
                }
            } else {
                out.push(c);
                i += 1;
            }
        }
        out.push('\n');
    }
    out
}

/// A random program: one to three corpus members in one file.
pub fn program(r: &mut Rng) -> String {
    let c = all();
    let n = *r.pick(&[1, 1, 2, 3]);
    let mut s = String::new();
    if r.chance(1, 8) {
        // names that differ in case only
        let p = r.pick(c);
        return format!("{p}\n{}", recased(p));
    }
    for k in 0..n {
        let p = r.pick(c);
        if s.len() + p.len() > 9000 && k > 0 {
            break;
        }
        if k == 0 {
            s.push_str(p);
        } else {
            s.push_str(&renamed(p, &format!("_{k}")));
        }
    }
    s
}

/// A small valid program whose text (and translation) is unique to `tag`.
pub fn small(r: &mut Rng, tag: &str) -> String {
    match r.below(5) {
        0 => format!("int f_{tag}(int a, int b) {{ return a + b * {}; }}\n", 1 + r.below(900)),
        1 => format!("struct S_{tag} {{ int x; int y{}; }};\nint g_{tag}(struct S_{tag} *p) {{ p->x = {}; return p->x; }}\n", r.below(9), r.below(900)),
        2 => format!(
            "#include <stdio.h>\nint main(void) {{ int v_{tag} = {}; printf(\"%d\\n\", v_{tag}); return 0; }}\n",
            r.below(900)
        ),
        3 => format!("enum E_{tag} {{ A_{tag}, B_{tag} = {} }};\nint h_{tag}(int n) {{ int s = 0; for (int i = 0; i < n; i++) s += i; return s; }}\n", 2 + r.below(900)),
        _ => format!("static int c_{tag} = {};\nint inc_{tag}(void) {{ c_{tag}++; return c_{tag}; }}\n", r.below(900)),
    }
}

/// A directive including the local file `name`, in one of the spellings C allows.
pub fn inc(r: &mut Rng, name: &str) -> String {
    match r.below(12) {
        0 => format!("# include \"{name}\"\n"),
        1 => format!("#include\"{name}\"\n"),
        2 => format!("  #  include\t \"{name}\"  \n"),
        3 => format!("#include \"{name}\" // see \"other.h\"\n"),
        4 => format!("#include <stdio.h> // not \"other.h\"\n#include \"{name}\" /* <x.h> */\n"),
        _ => format!("#include \"{name}\"\n"),
    }
}
/// The local file a line includes, if it does.
pub fn included(line: &str) -> Option<&str> {
    let d = line.trim().strip_prefix('#')?.trim().strip_prefix("include")?.trim();
    d.strip_prefix('"')?.split('"').next()
}
