// A computed number of spec/BigRat.tla. It stands for the string BigRat.text(r) and behaves
// like it, but the string is only made when it is needed (TLC interns all strings for good).
package bigrat;

import java.io.IOException;
import java.util.Random;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TLCVariable;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

public final class RatValue extends Value {
  public final Object number;   // BigRat.R
  private final java.util.function.Supplier<String> text;

  public RatValue(Object number, java.util.function.Supplier<String> text) {
    this.number = number;
    this.text = text;
  }

  public StringValue string() { return new StringValue(text.get()); }

  @Override public byte getKind() { return STRINGVALUE; }
  @Override public int compareTo(Object o) {
    if (o instanceof RatValue) return string().compareTo(((RatValue) o).string());
    return string().compareTo(o);
  }
  @Override public boolean equals(Object o) {
    if (o instanceof RatValue) return text.get().equals(((RatValue) o).text.get());
    return string().equals(o);
  }
  @Override public boolean member(Value v) { return string().member(v); }
  @Override public boolean isFinite() { return true; }
  @Override public Value takeExcept(ValueExcept e) { return string().takeExcept(e); }
  @Override public Value takeExcept(ValueExcept[] e) { return string().takeExcept(e); }
  @Override public int size() { return string().size(); }
  @Override public boolean mutates() { return false; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public void write(IValueOutputStream v) throws IOException { string().write(v); }
  @Override public long fingerPrint(long fp) { return string().fingerPrint(fp); }
  @Override public IValue permute(IMVPerm p) { return this; }
  @Override public TLCVariable toTLCVariable(TLCVariable v, Random r) { return string().toTLCVariable(v, r); }
  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    return string().toString(sb, offset, swallow);
  }
}
