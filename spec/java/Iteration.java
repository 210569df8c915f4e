import tlc2.tool.EvalControl;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.OpValue;
import tlc2.value.impl.Value;

/** TLC override of module Iteration: the same operators without recursion. */
public class Iteration {
    private static Value call(Value op, Value x) {
        Value v = ((OpValue) op).eval(new Value[] {x}, EvalControl.Clear);
        v.normalize();
        return v;
    }

    private static boolean test(Value op, Value x) {
        return ((BoolValue) call(op, x)).val;
    }

    public static Value Iterate(Value step, Value stop, Value x) {
        while (!test(stop, x)) {
            x = call(step, x);
        }
        return x;
    }

    public static Value First(Value p, Value i, Value n) {
        int to = ((IntValue) n).val;
        int j = ((IntValue) i).val;
        while (j <= to && !test(p, IntValue.gen(j))) {
            j++;
        }
        return IntValue.gen(j > to ? to + 1 : j);
    }
}
