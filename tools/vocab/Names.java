import java.time.*; import java.time.format.*; import java.util.*;
public class Names { public static void main(String[] a) throws Exception {
 var out=new java.io.PrintStream(System.out,true,"UTF-8");
 for (String tag: a) { Locale l=Locale.forLanguageTag(tag);
  for (Month m: Month.values()) for (TextStyle s: TextStyle.values()) if(!s.toString().startsWith("NARROW")) out.println(tag+"\tmonth\t"+m.getValue()+"\t"+s+"\t"+m.getDisplayName(s,l));
  for (DayOfWeek m: DayOfWeek.values()) for (TextStyle s: TextStyle.values()) if(!s.toString().startsWith("NARROW")) out.println(tag+"\tday\t"+m.getValue()+"\t"+s+"\t"+m.getDisplayName(s,l));
 }}}
