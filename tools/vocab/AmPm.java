import java.text.*; import java.util.*;
public class AmPm { public static void main(String[] a) throws Exception {
 var out=new java.io.PrintStream(System.out,true,"UTF-8");
 for (String tag: a) { String[] s=DateFormatSymbols.getInstance(Locale.forLanguageTag(tag)).getAmPmStrings();
  out.println(tag+"\t1\t"+s[0]); out.println(tag+"\t2\t"+s[1]); }}}
