"""Per-property settings of the checks."""
import rules

REG = {
    'O09': {'rules': [rules.locks('locnode', 'StampSortedObjects', 'StampSortedObjects<double>')]},
}
