"""C16: the expression rules against the reference models."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, models, rulecheck as rc

FOCUS = ['nullcheck', 'nullc', 'odd', 'ternary', 'cond', 'unary', 'paren', 'bit', 'logic', 'paramassign', 'delete', 'nscheck', 'cmp', 'assign', 'incdec', 'stmtexpr', 'comma', 'cast', 'expr']

if __name__ == '__main__':
    check.main('C16', rc.program_case(models.EXPR, FOCUS),
               rc.plan(['c', 'cxx', 'objc', 'objcxx', 'c89'], 800, 40000),
               setup=rc.setup,
               rule='a generated program in which the reference models expect at least one report of a rule, and oclint made '
                    'exactly the expected reports; counted once per (program, rule)')
