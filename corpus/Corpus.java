import java.io.*;
import java.net.URI;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.stream.*;
import javax.tools.*;

/**
 * Writes class files into one file, each as (name length, name, length, bytes).
 *   Corpus OUT [--runtime] [--symbols] [--jar FILE]... [--sources DIR]...
 * --runtime: the classes of this Java runtime; --symbols: the compiler's descriptions of older ones;
 * --sources: every *.java in DIR, compiled on its own with the options named in its first line.
 */
public class Corpus {
    static DataOutputStream out;
    static int compiled, failed;
    static final List<String> errors = new ArrayList<>();

    static synchronized void put(String name, byte[] b) throws IOException {
        byte[] n = name.getBytes(StandardCharsets.UTF_8);
        out.writeInt(n.length);
        out.write(n);
        out.writeInt(b.length);
        out.write(b);
    }

    static void tree(Path root, String prefix, String suffix) throws IOException {
        List<Path> all;
        try (Stream<Path> s = Files.walk(root)) {
            all = s.filter(p -> p.toString().endsWith(suffix)).sorted(Comparator.comparing(Path::toString)).collect(Collectors.toList());
        }
        for (Path p : all) put(prefix + p, Files.readAllBytes(p));
    }

    static final class Mem extends ForwardingJavaFileManager<StandardJavaFileManager> {
        final Map<String, ByteArrayOutputStream> made = new TreeMap<>();
        Mem(StandardJavaFileManager m) { super(m); }
        @Override
        public JavaFileObject getJavaFileForOutput(Location l, String cn, JavaFileObject.Kind k, FileObject sib) {
            ByteArrayOutputStream o = new ByteArrayOutputStream();
            made.put(cn, o);
            return new SimpleJavaFileObject(URI.create("mem:///" + cn.replace('.', '/') + k.extension), k) {
                @Override
                public OutputStream openOutputStream() { return o; }
            };
        }
        @Override
        public boolean isSameFile(FileObject a, FileObject b) { return a == b; }
    }

    static void compile(Path src) throws IOException {
        String text = Files.readString(src);
        String first = text.substring(0, text.indexOf('\n'));
        List<String> opts = new ArrayList<>(Arrays.asList(first.substring(first.indexOf(':') + 1).trim().split(" +")));
        opts.add("-proc:none");
        opts.add("-nowarn");
        JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
        StringBuilder said = new StringBuilder();
        DiagnosticListener<JavaFileObject> diag = d -> {
            if (d.getKind() != Diagnostic.Kind.ERROR) return;
            String m;
            try {
                m = d.getMessage(Locale.ROOT);
            } catch (RuntimeException e) {
                m = e.toString();
            }
            said.append("line ").append(d.getLineNumber()).append(": ").append(m).append(" | ");
        };
        String leaf = src.getFileName().toString();
        boolean module = leaf.startsWith("module-info");
        try (Mem fm = new Mem(jc.getStandardFileManager(diag, null, StandardCharsets.UTF_8))) {
            JavaFileObject f = new SimpleJavaFileObject(
                    URI.create("string:///" + (module ? "module-info" : leaf.replace(".java", "")) + ".java"), JavaFileObject.Kind.SOURCE) {
                @Override
                public CharSequence getCharContent(boolean ignore) { return text; }
            };
            boolean ok;
            String what = "";
            try {
                ok = jc.getTask(new StringWriter(), fm, diag, opts, null, List.of(f)).call();
            } catch (Throwable e) {
                ok = false;
                what = e.toString();
            }
            synchronized (Corpus.class) {
                if (out == null) return;
                if (ok) {
                    compiled++;
                    for (Map.Entry<String, ByteArrayOutputStream> e : fm.made.entrySet())
                        put("gen:" + leaf + ":" + e.getKey(), e.getValue().toByteArray());
                } else {
                    failed++;
                    errors.add(leaf + " " + opts + " " + what.replace('\n', ' ') + said.toString().replace('\n', ' '));
                }
            }
        }
    }

    public static void main(String[] a) throws Exception {
        out = new DataOutputStream(new BufferedOutputStream(new FileOutputStream(a[0]), 1 << 20));
        for (int i = 1; i < a.length; i++) {
            switch (a[i]) {
                case "--runtime":
                    tree(FileSystems.getFileSystem(URI.create("jrt:/")).getPath("/modules"), "jrt:", ".class");
                    break;
                case "--symbols": {
                    Path p = Paths.get(System.getProperty("java.home"), "lib", "ct.sym");
                    if (Files.exists(p))
                        try (FileSystem fs = FileSystems.newFileSystem(URI.create("jar:" + p.toUri()), Map.of("zipinfo-time", "false"))) {
                            tree(fs.getPath("/"), "sym:", ".sig");
                        } catch (java.nio.file.ProviderNotFoundException e) {
                            errors.add("ct.sym: " + e);
                        }
                    break;
                }
                case "--jar": {
                    Path p = Paths.get(a[++i]);
                    try (java.util.zip.ZipFile z = new java.util.zip.ZipFile(p.toFile())) {
                        for (java.util.zip.ZipEntry e : Collections.list(z.entries()))
                            if (e.getName().endsWith(".class"))
                                try (InputStream in = z.getInputStream(e)) { put("jar:" + p.getFileName() + ":" + e.getName(), in.readAllBytes()); }
                    }
                    break;
                }
                case "--sources": {
                    List<Path> all;
                    try (Stream<Path> s = Files.list(Paths.get(a[++i]))) {
                        all = s.filter(p -> p.toString().endsWith(".java")).sorted().collect(Collectors.toList());
                    }
                    ExecutorService ex = Executors.newFixedThreadPool(8);
                    List<Future<?>> fs = new ArrayList<>();
                    for (Path p : all) fs.add(ex.submit(() -> { compile(p); return null; }));
                    // the compiler takes very long over a few correct programs; those are left out
                    long end = System.nanoTime() + (150_000L + 30L * all.size()) * 1_000_000L;
                    for (int k = 0; k < fs.size(); k++) {
                        try {
                            fs.get(k).get(Math.max(1, end - System.nanoTime()), TimeUnit.NANOSECONDS);
                        } catch (TimeoutException e) {
                            synchronized (Corpus.class) {
                                failed++;
                                errors.add(all.get(k).getFileName() + " takes too long");
                            }
                        }
                    }
                    ex.shutdownNow();
                    break;
                }
                default:
                    throw new IllegalArgumentException(a[i]);
            }
        }
        synchronized (Corpus.class) {
            out.close();
            out = null;
        }
        System.out.println("compiled " + compiled + " failed " + failed);
        for (String e : errors.stream().limit(30).collect(Collectors.toList())) System.out.println("error " + e);
        System.out.flush();
        Runtime.getRuntime().halt(0);
    }
}
