// Runs the compiler's entry point again and again in one process; each line of input is one run:
//   plan TAB culture TAB directory TAB argument TAB argument ...       (the plan is for shim.c)
using System; using System.IO; using System.Linq; using System.Runtime.InteropServices; using System.Reflection; using System.Globalization;
class Host {
    [DllImport("libc")] static extern IntPtr dlsym(IntPtr h, string n);
    delegate void Plan(string p); delegate long Report(byte[] b, long n);
    static int Main(string[] a) {
        var asm = Assembly.LoadFrom(a[0]);
        var main0 = asm.GetTypes().Where(t => t.Name == "Program").Select(t => t.GetMethod("main0", BindingFlags.Static | BindingFlags.Public)).FirstOrDefault(m => m != null) ?? asm.EntryPoint;
        var plan = Marshal.GetDelegateForFunctionPointer<Plan>(dlsym(IntPtr.Zero, "vf_plan"));
        var report = Marshal.GetDelegateForFunctionPointer<Report>(dlsym(IntPtr.Zero, "vf_report"));
        var st = Assembly.LoadFrom(Path.Combine(Path.GetDirectoryName(a[0]), "ST.dll")).GetTypes().FirstOrDefault(t => t.Name == "ST");
        var cache = st?.GetProperty("cache", BindingFlags.Static | BindingFlags.Public)?.GetValue(null) as System.Collections.IDictionary;
        var so = Console.Out; var buf = new byte[400000]; string l;
        while ((l = Console.In.ReadLine()) != null) {
            var p = l.Split('\t'); Directory.SetCurrentDirectory(p[2]);
            CultureInfo.CurrentCulture = CultureInfo.DefaultThreadCurrentCulture = p[1] == "" ? CultureInfo.InvariantCulture : CultureInfo.GetCultureInfo(p[1]);
            var o = new StringWriter(); var e = new StringWriter(); Console.SetOut(o); Console.SetError(e);
            if (cache != null) foreach (var k in cache.Keys.Cast<string>().ToArray())      // a user's own template is read again in every run
                if (new[] { "generic", "python", "xml", "cust_icd" }.Any(t => Path.GetFileNameWithoutExtension(k) == t)) cache.Remove(k);
            int rc; plan(p[0]);
            try { rc = (int)main0.Invoke(null, new object[] { p.Skip(3).ToArray() }); }
            catch (Exception x) { rc = 134; e.WriteLine(x.InnerException ?? x); }
            long n = report(buf, buf.Length);
            Console.SetOut(so);
            GC.Collect(); GC.WaitForPendingFinalizers();
            so.WriteLine(rc + "\t" + System.Text.Encoding.ASCII.GetString(buf, 0, (int)n) + "\t" + Convert.ToBase64String(System.Text.Encoding.UTF8.GetBytes(e.ToString())) + "\t" + Convert.ToBase64String(System.Text.Encoding.UTF8.GetBytes(o.ToString())));
            so.Flush();
        }
        return 0;
    }
}
