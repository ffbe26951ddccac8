//! Stand-in for ark-relations: the gr1cs constraint system with the R1CS predicate.
pub mod gr1cs {
    use ark_ff::Field;
    use std::cell::{Ref, RefCell, RefMut};
    use std::collections::BTreeMap;
    use std::ops::*;
    use std::rc::Rc;

    pub const R1CS_PREDICATE_LABEL: &str = "R1CS";
    pub type Label = String;
    pub type Matrix<F> = Vec<Vec<(F, usize)>>;
    pub type Result<T> = std::result::Result<T, SynthesisError>;

    #[derive(PartialEq, Eq, Clone, Copy, Debug)]
    pub enum SynthesisError {
        MissingCS,
        AssignmentMissing,
        DivisionByZero,
        Unsatisfiable,
        PolynomialDegreeTooLarge,
        UnexpectedIdentity,
        MalformedVerifyingKey,
        UnconstrainedVariable,
        PredicateNotFound,
        ArityMismatch,
    }
    impl std::error::Error for SynthesisError {}
    impl std::fmt::Display for SynthesisError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{:?}", self)
        }
    }
    #[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy, Debug, Hash)]
    pub enum Variable {
        Zero,
        One,
        Instance(usize),
        Witness(usize),
        SymbolicLc(usize),
    }
    impl Variable {
        pub fn zero() -> Self {
            Variable::Zero
        }
        pub fn one() -> Self {
            Variable::One
        }
        pub fn instance(i: usize) -> Self {
            Variable::Instance(i)
        }
        pub fn witness(i: usize) -> Self {
            Variable::Witness(i)
        }
        pub fn is_one(self) -> bool {
            self == Variable::One
        }
        pub fn get_variable_index(&self, off: usize) -> Option<usize> {
            match self {
                Variable::One => Some(0),
                Variable::Instance(i) => Some(*i),
                Variable::Witness(i) => Some(off + *i),
                _ => None,
            }
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Default)]
    pub struct LinearCombination<F: Field>(pub Vec<(F, Variable)>);
    #[macro_export]
    macro_rules! lc {
        () => {
            $crate::gr1cs::LinearCombination::zero()
        };
    }
    impl<F: Field> LinearCombination<F> {
        pub fn new() -> Self {
            LinearCombination(vec![])
        }
        pub fn zero() -> Self {
            LinearCombination(vec![])
        }
        pub fn is_zero(&self) -> bool {
            self.0.iter().all(|(c, _)| c.is_zero())
        }
        pub fn compactify(&mut self) {}
    }
    impl<F: Field> From<Variable> for LinearCombination<F> {
        fn from(v: Variable) -> Self {
            LinearCombination(vec![(F::ONE, v)])
        }
    }
    impl<F: Field> From<(F, Variable)> for LinearCombination<F> {
        fn from(v: (F, Variable)) -> Self {
            LinearCombination(vec![v])
        }
    }
    impl<F: Field> Deref for LinearCombination<F> {
        type Target = Vec<(F, Variable)>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<F: Field> DerefMut for LinearCombination<F> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<F: Field> Add<(F, Variable)> for LinearCombination<F> {
        type Output = Self;
        fn add(mut self, t: (F, Variable)) -> Self {
            self.0.push(t);
            self
        }
    }
    impl<F: Field> AddAssign<(F, Variable)> for LinearCombination<F> {
        fn add_assign(&mut self, t: (F, Variable)) {
            self.0.push(t)
        }
    }
    impl<F: Field> Sub<(F, Variable)> for LinearCombination<F> {
        type Output = Self;
        fn sub(mut self, (c, v): (F, Variable)) -> Self {
            self.0.push((-c, v));
            self
        }
    }
    impl<F: Field> SubAssign<(F, Variable)> for LinearCombination<F> {
        fn sub_assign(&mut self, (c, v): (F, Variable)) {
            self.0.push((-c, v))
        }
    }
    impl<F: Field> Add<Variable> for LinearCombination<F> {
        type Output = Self;
        fn add(self, v: Variable) -> Self {
            self + (F::ONE, v)
        }
    }
    impl<F: Field> AddAssign<Variable> for LinearCombination<F> {
        fn add_assign(&mut self, v: Variable) {
            self.0.push((F::ONE, v))
        }
    }
    impl<F: Field> Sub<Variable> for LinearCombination<F> {
        type Output = Self;
        fn sub(self, v: Variable) -> Self {
            self - (F::ONE, v)
        }
    }
    impl<F: Field> Add for LinearCombination<F> {
        type Output = Self;
        fn add(mut self, o: Self) -> Self {
            self.0.extend(o.0);
            self
        }
    }
    impl<'a, F: Field> Add<&'a Self> for LinearCombination<F> {
        type Output = Self;
        fn add(mut self, o: &'a Self) -> Self {
            self.0.extend(o.0.iter().cloned());
            self
        }
    }
    impl<F: Field> Sub for LinearCombination<F> {
        type Output = Self;
        fn sub(mut self, o: Self) -> Self {
            self.0.extend(o.0.into_iter().map(|(c, v)| (-c, v)));
            self
        }
    }
    impl<F: Field> Neg for LinearCombination<F> {
        type Output = Self;
        fn neg(self) -> Self {
            LinearCombination(self.0.into_iter().map(|(c, v)| (-c, v)).collect())
        }
    }
    impl<F: Field> Mul<F> for LinearCombination<F> {
        type Output = Self;
        fn mul(self, s: F) -> Self {
            LinearCombination(self.0.into_iter().map(|(c, v)| (c * s, v)).collect())
        }
    }

    pub trait ConstraintSynthesizer<F: Field> {
        fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<()>;
    }
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum OptimizationGoal {
        None,
        Constraints,
        Weight,
    }
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum SynthesisMode {
        Setup,
        Prove { construct_matrices: bool, generate_lc_assignments: bool },
    }
    #[derive(Debug, Clone)]
    pub struct ConstraintSystem<F: Field> {
        mode: SynthesisMode,
        num_instance: usize,
        num_witness: usize,
        instance: Vec<F>,
        witness: Vec<F>,
        cons: Vec<[LinearCombination<F>; 3]>,
        predicates: BTreeMap<Label, usize>,
    }
    impl<F: Field> Default for ConstraintSystem<F> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<F: Field> ConstraintSystem<F> {
        pub fn new() -> Self {
            let mut predicates = BTreeMap::new();
            predicates.insert(R1CS_PREDICATE_LABEL.to_string(), 3);
            ConstraintSystem {
                mode: SynthesisMode::Prove { construct_matrices: true, generate_lc_assignments: true },
                num_instance: 1,
                num_witness: 0,
                instance: vec![F::ONE],
                witness: vec![],
                cons: vec![],
                predicates,
            }
        }
        pub fn new_ref() -> ConstraintSystemRef<F> {
            ConstraintSystemRef::new(Self::new())
        }
        pub fn set_mode(&mut self, m: SynthesisMode) {
            self.mode = m
        }
        pub fn is_in_setup_mode(&self) -> bool {
            self.mode == SynthesisMode::Setup
        }
        pub fn num_instance_variables(&self) -> usize {
            self.num_instance
        }
        pub fn num_witness_variables(&self) -> usize {
            self.num_witness
        }
        pub fn num_variables(&self) -> usize {
            self.num_instance + self.num_witness
        }
        pub fn num_constraints(&self) -> usize {
            self.cons.len()
        }
        pub fn instance_assignment(&self) -> Result<&[F]> {
            if self.is_in_setup_mode() {
                return Err(SynthesisError::AssignmentMissing);
            }
            Ok(&self.instance)
        }
        pub fn witness_assignment(&self) -> Result<&[F]> {
            if self.is_in_setup_mode() {
                return Err(SynthesisError::AssignmentMissing);
            }
            Ok(&self.witness)
        }
        pub fn assigned_value(&self, v: Variable) -> Option<F> {
            match v {
                Variable::Zero => Some(F::ZERO),
                Variable::One => Some(F::ONE),
                Variable::Instance(i) => self.instance.get(i).copied(),
                Variable::Witness(i) => self.witness.get(i).copied(),
                Variable::SymbolicLc(_) => None,
            }
        }
        // The count goes up before the value is asked for, and stays up if there is none.
        pub fn new_input_variable<Func: FnOnce() -> Result<F>>(&mut self, f: Func) -> Result<Variable> {
            let index = self.num_instance;
            self.num_instance += 1;
            if !self.is_in_setup_mode() {
                self.instance.push(f()?);
            }
            Ok(Variable::Instance(index))
        }
        pub fn new_witness_variable<Func: FnOnce() -> Result<F>>(&mut self, f: Func) -> Result<Variable> {
            let index = self.num_witness;
            self.num_witness += 1;
            if !self.is_in_setup_mode() {
                self.witness.push(f()?);
            }
            Ok(Variable::Witness(index))
        }
        pub fn enforce_constraint(
            &mut self,
            label: &str,
            lcs: impl IntoIterator<Item = Box<dyn FnOnce() -> LinearCombination<F>>>,
        ) -> Result<()> {
            if !self.predicates.contains_key(label) {
                return Err(SynthesisError::PredicateNotFound);
            }
            let v: Vec<LinearCombination<F>> = lcs.into_iter().map(|f| f()).collect();
            let a: [LinearCombination<F>; 3] = v.try_into().map_err(|_| SynthesisError::ArityMismatch)?;
            self.cons.push(a);
            Ok(())
        }
        fn eval(&self, lc: &LinearCombination<F>) -> Result<F> {
            let mut s = F::ZERO;
            for (c, v) in &lc.0 {
                s += *c * self.assigned_value(*v).ok_or(SynthesisError::AssignmentMissing)?;
            }
            Ok(s)
        }
        pub fn is_satisfied(&self) -> Result<bool> {
            Ok(self.which_is_unsatisfied()?.is_none())
        }
        pub fn which_is_unsatisfied(&self) -> Result<Option<String>> {
            if self.is_in_setup_mode() {
                return Err(SynthesisError::AssignmentMissing);
            }
            for (i, [a, b, c]) in self.cons.iter().enumerate() {
                if self.eval(a)? * self.eval(b)? != self.eval(c)? {
                    return Ok(Some(format!("{} - {}", R1CS_PREDICATE_LABEL, i)));
                }
            }
            Ok(None)
        }
        pub fn to_matrices(&self) -> Result<BTreeMap<Label, Vec<Matrix<F>>>> {
            let mut ms: Vec<Matrix<F>> = vec![vec![]; 3];
            for con in &self.cons {
                for k in 0..3 {
                    // sorted by variable, equal variables merged, zero terms dropped
                    let mut row: BTreeMap<usize, F> = BTreeMap::new();
                    for (c, v) in &con[k].0 {
                        if let Some(i) = v.get_variable_index(self.num_instance) {
                            *row.entry(i).or_insert(F::ZERO) += *c;
                        }
                    }
                    ms[k].push(row.into_iter().filter(|(_, c)| !c.is_zero()).map(|(i, c)| (c, i)).collect());
                }
            }
            Ok(BTreeMap::from([(R1CS_PREDICATE_LABEL.to_string(), ms)]))
        }
        pub fn finalize(&mut self) {}
        pub fn inline_all_lcs(&mut self) {}
    }
    #[derive(Debug, Clone)]
    pub enum ConstraintSystemRef<F: Field> {
        None,
        CS(Rc<RefCell<ConstraintSystem<F>>>),
    }
    impl<F: Field> ConstraintSystemRef<F> {
        pub fn new(cs: ConstraintSystem<F>) -> Self {
            ConstraintSystemRef::CS(Rc::new(RefCell::new(cs)))
        }
        pub fn is_none(&self) -> bool {
            matches!(self, Self::None)
        }
        fn inner(&self) -> Option<&Rc<RefCell<ConstraintSystem<F>>>> {
            match self {
                Self::CS(a) => Some(a),
                Self::None => None,
            }
        }
        pub fn into_inner(self) -> Option<ConstraintSystem<F>> {
            match self {
                Self::CS(a) => Rc::try_unwrap(a).ok().map(|x| x.into_inner()),
                Self::None => None,
            }
        }
        pub fn borrow(&self) -> Option<Ref<'_, ConstraintSystem<F>>> {
            self.inner().map(|c| c.borrow())
        }
        pub fn borrow_mut(&self) -> Option<RefMut<'_, ConstraintSystem<F>>> {
            self.inner().map(|c| c.borrow_mut())
        }
        pub fn set_mode(&self, m: SynthesisMode) {
            if let Some(c) = self.inner() {
                c.borrow_mut().set_mode(m)
            }
        }
        pub fn set_optimization_goal(&self, _: OptimizationGoal) {}
        pub fn is_in_setup_mode(&self) -> bool {
            self.borrow().is_some_and(|c| c.is_in_setup_mode())
        }
        pub fn num_instance_variables(&self) -> usize {
            self.borrow().map_or(0, |c| c.num_instance)
        }
        pub fn num_witness_variables(&self) -> usize {
            self.borrow().map_or(0, |c| c.num_witness)
        }
        pub fn num_variables(&self) -> usize {
            self.borrow().map_or(0, |c| c.num_variables())
        }
        pub fn num_constraints(&self) -> usize {
            self.borrow().map_or(0, |c| c.num_constraints())
        }
        pub fn instance_assignment(&self) -> Result<Vec<F>> {
            self.borrow().ok_or(SynthesisError::MissingCS)?.instance_assignment().map(|s| s.to_vec())
        }
        pub fn witness_assignment(&self) -> Result<Vec<F>> {
            self.borrow().ok_or(SynthesisError::MissingCS)?.witness_assignment().map(|s| s.to_vec())
        }
        pub fn assigned_value(&self, v: Variable) -> Option<F> {
            self.borrow()?.assigned_value(v)
        }
        pub fn new_input_variable<Func: FnOnce() -> Result<F>>(&self, f: Func) -> Result<Variable> {
            let c = self.inner().ok_or(SynthesisError::MissingCS)?;
            if !self.is_in_setup_mode() {
                // evaluated outside the borrow, so that it may use the system itself
                let v = f();
                return c.borrow_mut().new_input_variable(move || v);
            }
            c.borrow_mut().new_input_variable(f)
        }
        pub fn new_witness_variable<Func: FnOnce() -> Result<F>>(&self, f: Func) -> Result<Variable> {
            let c = self.inner().ok_or(SynthesisError::MissingCS)?;
            if !self.is_in_setup_mode() {
                let v = f();
                return c.borrow_mut().new_witness_variable(move || v);
            }
            c.borrow_mut().new_witness_variable(f)
        }
        pub fn enforce_constraint(
            &self,
            label: &str,
            lcs: impl IntoIterator<Item = Box<dyn FnOnce() -> LinearCombination<F>>>,
        ) -> Result<()> {
            self.inner().ok_or(SynthesisError::MissingCS)?.borrow_mut().enforce_constraint(label, lcs)
        }
        pub fn enforce_r1cs_constraint(
            &self,
            a: impl FnOnce() -> LinearCombination<F> + 'static,
            b: impl FnOnce() -> LinearCombination<F> + 'static,
            c: impl FnOnce() -> LinearCombination<F> + 'static,
        ) -> Result<()> {
            let v: Vec<Box<dyn FnOnce() -> LinearCombination<F>>> = vec![Box::new(a), Box::new(b), Box::new(c)];
            self.enforce_constraint(R1CS_PREDICATE_LABEL, v)
        }
        pub fn is_satisfied(&self) -> Result<bool> {
            self.borrow().ok_or(SynthesisError::AssignmentMissing)?.is_satisfied()
        }
        pub fn which_is_unsatisfied(&self) -> Result<Option<String>> {
            self.borrow().ok_or(SynthesisError::AssignmentMissing)?.which_is_unsatisfied()
        }
        pub fn to_matrices(&self) -> Result<BTreeMap<Label, Vec<Matrix<F>>>> {
            self.borrow().ok_or(SynthesisError::MissingCS)?.to_matrices()
        }
        pub fn finalize(&self) {}
    }
}
