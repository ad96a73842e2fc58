// Executes calls on the Java binding of the working tree; one call per line, one answer per line (see lib/binding.py).
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import org.puimula.libvoikko.*;
import org.puimula.libvoikko.Dictionary;
import com.sun.jna.NativeLibrary;

public class JavaWorker {
    static final Map<String, Voikko> H = Collections.synchronizedMap(new HashMap<String, Voikko>());
    static com.sun.jna.Function live;

    static String s(String h) {
        StringBuilder b = new StringBuilder();
        for (int i = 0; i + 4 <= h.length(); i += 4) b.append((char) Integer.parseInt(h.substring(i, i + 4), 16));
        return b.toString();
    }

    static String opt(String h) { return h.equals("-") ? null : s(h); }

    static String x(String t) {
        if (t.isEmpty()) return "_";
        StringBuilder b = new StringBuilder();
        for (int i = 0; i < t.length(); i++) b.append(String.format("%04x", (int) t.charAt(i)));
        return b.toString();
    }

    static String lst(List<String> l) { return l == null ? "N" : l.isEmpty() ? "L" : "L " + String.join(" ", l); }

    static List<String> xs(List<String> l) {
        if (l == null) return null;
        List<String> r = new ArrayList<>();
        for (String t : l) r.add(x(t));
        return r;
    }

    static String dict(Dictionary d) { return x(d.getLanguage()) + "," + x(d.getScript()) + "," + x(d.getVariant()) + "," + x(d.getDescription()); }

    static String set(Voikko v, String name, String val) throws Exception {
        if (name.equals("setSuggestionStrategy")) v.setSuggestionStrategy(SuggestionStrategy.valueOf(val));
        else if (val.equals("true") || val.equals("false")) call(Voikko.class.getMethod(name, boolean.class), v, val.equals("true"));
        else call(Voikko.class.getMethod(name, int.class), v, Integer.parseInt(val));
        return "OK";
    }

    static void call(java.lang.reflect.Method m, Voikko v, Object a) throws Exception {
        try { m.invoke(v, a); } catch (java.lang.reflect.InvocationTargetException e) { throw (Exception) e.getCause(); }
    }

    static String one(String op, String[] f) throws Exception {
        if (op.equals("new")) { H.put(f[1], f[3].equals("-") ? new Voikko(opt(f[2])) : new Voikko(opt(f[2]), opt(f[3]))); return "OK"; }
        if (op.equals("newterm")) { Voikko v = new Voikko(opt(f[2]), opt(f[3])); v.terminate(); v.terminate(); return "OK"; }
        if (op.equals("ld")) {
            List<String> r = new ArrayList<>();
            for (Dictionary d : f[1].equals("-") ? Voikko.listDicts() : Voikko.listDicts(opt(f[1]))) r.add(dict(d));
            return lst(r);
        }
        if (op.equals("sort")) {
            List<Dictionary> ds = new ArrayList<>();
            for (String d : f[1].split(" ")) { String[] p = d.split(","); ds.add(new Dictionary(un(p[0]), un(p[1]), un(p[2]), un(p[3]))); }
            for (Dictionary a : ds) for (Dictionary b : ds)
                if (a.equals(b) != dict(a).equals(dict(b)) || a.equals(b) && a.hashCode() != b.hashCode() || (a.compareTo(b) == 0) != a.equals(b)) return "BAD equality";
            Collections.sort(ds);
            List<String> r = new ArrayList<>();
            for (Dictionary d : ds) r.add(dict(d));
            return lst(r);
        }
        Voikko v = H.get(f[1]);
        switch (op) {
        case "term": v.terminate(); return "OK";
        case "sp": return v.spell(s(f[2])) ? "1" : "0";
        case "sg": return lst(xs(v.suggest(s(f[2]))));
        case "gr": {
            List<String> r = new ArrayList<>();
            for (GrammarError e : v.grammarErrors(s(f[2]), s(f[3])))
                r.add(e.getErrorCode() + ":" + e.getStartPos() + ":" + e.getErrorLen() + ":" + x(e.getShortDescription()) + ":" + String.join(",", xs(e.getSuggestions())));
            return lst(r);
        }
        case "an": {
            List<String> r = new ArrayList<>();
            for (Analysis a : v.analyze(s(f[2]))) {
                List<String> kv = new ArrayList<>();
                for (String k : new TreeSet<String>(a.keySet())) kv.add(k + "=" + x(a.get(k)));
                r.add(kv.isEmpty() ? "_" : String.join(";", kv));
            }
            return lst(r);
        }
        case "tk": {
            List<String> r = new ArrayList<>();
            for (Token t : v.tokens(s(f[2]))) r.add(t.getType() + ":" + x(t.getText()) + ":" + t.getStartOffset() + (t.getEndOffset() == t.getStartOffset() + t.getText().length() ? "" : ":BAD"));
            return lst(r);
        }
        case "st": {
            List<String> r = new ArrayList<>();
            for (Sentence t : v.sentences(s(f[2]))) r.add(t.getNextStartType() + ":" + x(t.getText()));
            return lst(r);
        }
        case "av": return lst(xs(v.attributeValues(s(f[2]))));
        case "hp": return "S" + x(v.getHyphenationPattern(s(f[2])));
        case "hd": return "S" + x(v.hyphenate(s(f[2])));
        case "hy": return "S" + x(v.hyphenate(s(f[2]), s(f[3]), f[4].equals("1")));
        case "set": return set(v, f[2], f[3]);
        }
        return "BAD op";
    }

    static String un(String p) { return p.equals("_") ? "" : s(p); }

    static String answer(String line) {
        String[] f = line.split("\t", -1);
        int n = 1;
        String op = f[0];
        if (op.startsWith("*")) { n = 4; op = op.substring(1); }
        long[] lv = new long[4];
        String a = null, last = null;
        for (int k = 0; k < n; k++) {
            try { a = one(op, f); }
            catch (VoikkoException e) { a = "X:VoikkoException"; }
            catch (Exception | Error e) { a = "X:" + e; }
            if (n > 1) {
                if (k > 0 && !a.equals(last)) return "BAD answers of the same call differ: " + last + " / " + a;
                last = a;
                lv[k] = live.invokeLong(new Object[0]);
            }
        }
        return a + (n > 1 ? "\t" + Math.min(lv[2] - lv[1], lv[3] - lv[2]) : "");
    }

    public static void main(String[] args) throws Exception {
        live = NativeLibrary.getInstance(args[0] + "/libvoikko.so.1").getFunction("verif_live");
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.US_ASCII));
        final PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
        List<List<String>> groups = new ArrayList<>();
        groups.add(new ArrayList<String>());
        for (String l = in.readLine(); l != null; l = in.readLine()) {
            if (l.equals("||")) groups.add(new ArrayList<String>());
            else groups.get(groups.size() - 1).add(l);
        }
        if (groups.size() == 1) {
            for (String l : groups.get(0)) { out.println(answer(l).replace('\n', ' ')); out.flush(); }
        } else {
            // the first group alone, then one thread for each of the others
            final List<List<String>> res = new ArrayList<>();
            List<Thread> ts = new ArrayList<>();
            final java.util.concurrent.CyclicBarrier start = new java.util.concurrent.CyclicBarrier(groups.size() - 1);
            for (int g = 0; g < groups.size(); g++) {
                final List<String> r = new ArrayList<>();
                final List<String> ls = groups.get(g);
                res.add(r);
                if (g == 0) { for (String l : ls) r.add(answer(l)); continue; }
                Thread t = new Thread() { public void run() { try { start.await(); } catch (Exception e) { } for (String l : ls) r.add(answer(l)); } };
                ts.add(t);
            }
            for (Thread t : ts) t.start();
            for (Thread t : ts) t.join();
            for (List<String> r : res) for (String a : r) out.println(a.replace('\n', ' '));
            out.flush();
        }
        System.exit(0);
    }
}
