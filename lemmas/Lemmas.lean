import Mathlib

/-! Lemma schemas of vt/smt.py (powers, values, bits), named as in LEMMA_USE. -/
namespace VT

/-- a power of two with an integer exponent; 1 below zero -/
def E (e : ℤ) : ℤ := 2 ^ e.toNat
/-- the value of the lowest n blocks -/
def V (a : ℤ → ℤ) (n : ℤ) : ℤ := ∑ k ∈ Finset.range n.toNat, a k * 2 ^ (32 * k)
/-- blocks are 32 bits wide -/
def Word (a : ℤ → ℤ) : Prop := ∀ k, 0 ≤ a k ∧ a k < 2 ^ 32

theorem E_pos (e : ℤ) : 0 < E e := by unfold E; positivity
theorem E_zero (e : ℤ) (h : e ≤ 0) : E e = 1 := by
  unfold E; rw [Int.toNat_of_nonpos h]; rfl
theorem E_nat (n : ℕ) : E n = 2 ^ n := by unfold E; simp
theorem E_add (e f : ℤ) (he : 0 ≤ e) (hf : 0 ≤ f) : E e * E f = E (e + f) := by
  unfold E; rw [Int.toNat_add he hf, pow_add]
theorem E_step (e : ℤ) (d : ℕ) (he : 0 ≤ e) : E (e + d) = 2 ^ d * E e := by
  rw [← E_add e d he (by positivity), E_nat]; ring
theorem E_mono (e f : ℤ) (h : e ≤ f) : E e ≤ E f := by
  unfold E; exact pow_le_pow_right₀ (by norm_num) (Int.toNat_le_toNat h)
theorem E_mono_lt (e f : ℤ) (h : e < f) (he : 0 ≤ e) : 2 * E e ≤ E f := by
  have := E_mono (e + 1) f (by omega)
  have h2 := E_step e 1 he
  push_cast at h2; linarith [h2]
theorem E_const_ge (e : ℤ) (c : ℕ) (h : (c : ℤ) ≤ e) : 2 ^ c ≤ E e := by
  have := E_mono c e h; rwa [E_nat] at this
theorem E_const_le (e : ℤ) (c : ℕ) (h : e ≤ (c : ℤ)) : E e ≤ 2 ^ c := by
  have := E_mono e c h; rwa [E_nat] at this
theorem E_grow (e : ℤ) (h : 0 ≤ e) : e + 1 ≤ E e := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
  rw [E_nat]; have := @Nat.lt_two_pow_self n; exact_mod_cast this
theorem E_mono_double (x : ℤ) (h : 0 ≤ x) : E x ≤ E (2 * x) := E_mono _ _ (by omega)
theorem E_square (x : ℤ) (h : 32 ≤ x) : 2 ^ 32 * E x ≤ E (2 * x) := by
  have h1 := E_const_ge x 32 (by exact_mod_cast h)
  rw [two_mul, ← E_add x x (by omega) (by omega)]
  exact mul_le_mul_of_nonneg_right h1 (E_pos x).le
/-- the exponent split into blocks and bits -/
theorem E_split (e : ℤ) (j : ℕ) (he : 0 ≤ e) (h : e - 32 * (e / 32) = j) : E e = 2 ^ j * E (32 * (e / 32)) := by
  have : e = 32 * (e / 32) + j := by omega
  conv_lhs => rw [this]
  exact E_step _ _ (by omega)

theorem V_nonpos (a) (n : ℤ) (h : n ≤ 0) : V a n = 0 := by
  unfold V; rw [Int.toNat_of_nonpos h]; simp
theorem V_step (a) (k : ℤ) (h : 0 ≤ k) : V a (k + 1) = V a k + a k * E (32 * k) := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
  unfold V E
  have h1 : ((n : ℤ) + 1).toNat = n + 1 := by omega
  have h2 : (32 * (n : ℤ)).toNat = 32 * n := by omega
  rw [h1, h2, Finset.sum_range_succ]; simp
theorem V_nat_ind {P : ℤ → Prop} (h0 : P 0) (hs : ∀ k : ℕ, P k → P (k + 1)) (n : ℤ) (h : 0 ≤ n) : P n := by
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h
  induction m with
  | zero => simpa using h0
  | succ m ih => have := hs m (ih (by positivity)); simpa using this
theorem V_nonneg (a) (ha : Word a) (n : ℤ) : 0 ≤ V a n := by
  unfold V; exact Finset.sum_nonneg fun k _ => mul_nonneg (ha k).1 (by positivity)
theorem V_range (a) (ha : Word a) (n : ℤ) (h : 0 ≤ n) : V a n < E (32 * n) := by
  refine V_nat_ind (P := fun n => V a n < E (32 * n)) ?_ ?_ n h
  · rw [V_nonpos a 0 le_rfl]; exact E_pos _
  · intro k ih
    rw [V_step a k (by positivity)]
    have h1 := E_step (32 * (k : ℤ)) 32 (by positivity)
    have h2 := (ha k).2
    have h3 : (32 * ((k : ℤ) + 1)) = 32 * (k : ℤ) + (32 : ℕ) := by push_cast; ring
    rw [h3, h1]
    have hE := E_pos (32 * (k : ℤ))
    try simp only at ih
    nlinarith
theorem V_congr (a b) (n : ℤ) (h : ∀ k, 0 ≤ k → k < n → a k = b k) : V a n = V b n := by
  unfold V; refine Finset.sum_congr rfl fun k hk => ?_
  have := Finset.mem_range.mp hk
  rw [h k (by positivity) (by omega)]
/-- the blocks between two positions, as a number -/
def Vs (a : ℤ → ℤ) (k n : ℤ) : ℤ := V (fun j => a (j + k)) (n - k)
theorem V_split (a) (k n : ℤ) (h0 : 0 ≤ k) (h : k ≤ n) : V a n = V a k + E (32 * k) * Vs a k n := by
  have key : ∀ m : ℤ, 0 ≤ m → V a (k + m) = V a k + E (32 * k) * V (fun j => a (j + k)) m := by
    intro m hm
    refine V_nat_ind (P := fun m => V a (k + m) = V a k + E (32 * k) * V (fun j => a (j + k)) m) ?_ ?_ m hm
    · rw [V_nonpos _ 0 le_rfl]; simp
    · intro j ih
      try simp only at ih ⊢
      rw [← add_assoc, V_step a _ (by positivity), V_step _ _ (by positivity), ih]
      have : E (32 * (k + j)) = E (32 * k) * E (32 * j) := by
        rw [E_add _ _ (by omega) (by positivity)]; congr 1; ring
      rw [this, add_comm (j : ℤ) k]; ring
  have := key (n - k) (by omega)
  unfold Vs; rw [← this]; congr 1; ring
theorem Vs_nonneg (a) (ha : Word a) (k n : ℤ) : 0 ≤ Vs a k n := V_nonneg _ (fun j => ha _) _
theorem V_mono (a) (ha : Word a) (k n : ℤ) (h0 : 0 ≤ k) (h : k ≤ n) : V a k ≤ V a n := by
  rw [V_split a k n h0 h]
  have := mul_nonneg (E_pos (32 * k)).le (Vs_nonneg a ha k n)
  linarith
def store (a : ℤ → ℤ) (k v : ℤ) : ℤ → ℤ := fun j => if j = k then v else a j
theorem V_store_lo (a) (k v i : ℤ) (h : i ≤ k) : V (store a k v) i = V a i := by
  refine V_congr _ _ _ fun j _ h2 => ?_
  unfold store; rw [if_neg (by omega)]
theorem V_store_hi (a) (k v i : ℤ) (h : k < i) (h0 : 0 ≤ k) : V (store a k v) i = V a i + (v - a k) * E (32 * k) := by
  rw [V_split (store a k v) (k + 1) i (by omega) (by omega), V_split a (k + 1) i (by omega) (by omega), V_step _ k h0, V_step _ k h0,
    V_store_lo a k v k le_rfl]
  have : Vs (store a k v) (k + 1) i = Vs a (k + 1) i := by
    unfold Vs; refine V_congr _ _ _ fun j h1 _ => ?_
    unfold store; rw [if_neg (by omega)]
  rw [this]; have : store a k v k = v := by unfold store; simp
  rw [this]; ring
theorem V_top (a) (ha : Word a) (l : ℤ) (h : 1 ≤ l) (h1 : 1 ≤ a (l - 1)) : E (32 * l - 32) ≤ V a l := by
  have h2 := V_step a (l - 1) (by omega)
  rw [sub_add_cancel] at h2
  rw [h2]; have h3 := V_nonneg a ha (l - 1)
  have h4 := E_pos (32 * (l - 1))
  have h5 : 32 * l - 32 = 32 * (l - 1) := by ring
  rw [h5]; nlinarith
/-- equal block ranges -/
def eqr (a b : ℤ → ℤ) (lo hi sh : ℤ) : Prop := ∀ j, lo ≤ j → j < hi → a j = b (j + sh)
theorem eqr_elem (a b) (lo hi sh j : ℤ) (s : eqr a b lo hi sh) (h1 : lo ≤ j) (h2 : j < hi) : a j = b (j + sh) := s j h1 h2
theorem eqr_V (a b) (lo hi sh x y : ℤ) (s : eqr a b lo hi sh) (h1 : lo ≤ x) (h2 : x ≤ y) (h3 : y ≤ hi) (h0 : 0 ≤ x) (hs : 0 ≤ sh) :
    (V a y - V a x) * E (32 * sh) = V b (y + sh) - V b (x + sh) := by
  rw [V_split a x y h0 h2, V_split b (x + sh) (y + sh) (by omega) (by omega)]
  have : Vs a x y = Vs b (x + sh) (y + sh) := by
    unfold Vs; have : y + sh - (x + sh) = y - x := by ring
    rw [this]; refine V_congr _ _ _ fun j h4 h5 => ?_
    have := s (j + x) (by omega) (by omega)
    rw [this]; congr 1; ring
  rw [this]
  have : E (32 * (x + sh)) = E (32 * x) * E (32 * sh) := by
    rw [E_add _ _ (by omega) (by omega)]; congr 1; ring
  rw [this]; ring
/-- a number is a multiple of a power of two -/
def cong (p e : ℤ) : Prop := ∃ w, p = w * E e
theorem cong_witness (p e : ℤ) (s : cong p e) : ∃ w, p = w * E e := s
theorem cong_small (p e : ℤ) (s : cong p e) : E e ≤ p ∨ p ≤ -E e ∨ p = 0 := by
  obtain ⟨w, rfl⟩ := s
  have := E_pos e
  rcases lt_trichotomy w 0 with h | h | h
  · right; left; nlinarith
  · right; right; rw [h]; ring
  · left; nlinarith
theorem mul_mono (R x y k : ℤ) (hR : 0 ≤ R) :
    (k ≤ x → k * R ≤ x * R) ∧ (x < k → x * R ≤ (k - 1) * R) ∧ (x ≤ k → x * R ≤ k * R) ∧ (x < y → x * R + R ≤ y * R) ∧ (x = y → x * R = y * R) := by
  refine ⟨fun h => ?_, fun h => ?_, fun h => ?_, fun h => ?_, fun h => by rw [h]⟩ <;> nlinarith

/-- the bit at a position -/
def bit (a : ℤ → ℤ) (i : ℤ) : ℤ := a (i / 32) / 2 ^ (i % 32).toNat % 2
theorem bit_def (a) (i : ℤ) (j : ℕ) (h : i - 32 * (i / 32) = j) : bit a i = a (i / 32) / 2 ^ j % 2 := by
  unfold bit; have : (i % 32).toNat = j := by omega
  rw [this]
/-- the bits below a position, as a number -/
def low (a : ℤ → ℤ) (i : ℤ) : ℤ := ∑ k ∈ Finset.range i.toNat, bit a k * 2 ^ k
theorem bit_01 (a i) : 0 ≤ bit a i ∧ bit a i ≤ 1 := by unfold bit; omega
theorem low_zero (a) (i : ℤ) (h : i ≤ 0) : low a i = 0 := by
  unfold low; rw [Int.toNat_of_nonpos h]; simp
theorem low_step (a) (i : ℤ) (h : 0 ≤ i) : low a (i + 1) = low a i + bit a i * E i := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
  unfold low E
  have h1 : ((n : ℤ) + 1).toNat = n + 1 := by omega
  rw [h1, Finset.sum_range_succ]; simp
theorem low_nonneg (a i) : 0 ≤ low a i := by
  unfold low; exact Finset.sum_nonneg fun k _ => mul_nonneg (bit_01 a k).1 (by positivity)
theorem low_range (a) (i : ℤ) (h : 0 ≤ i) : low a i ≤ E i - 1 := by
  refine V_nat_ind (P := fun i => low a i ≤ E i - 1) ?_ ?_ i h
  · rw [low_zero a 0 le_rfl, E_zero 0 le_rfl]; norm_num
  · intro k ih
    try simp only at ih ⊢
    rw [low_step a k (by positivity)]
    have h1 := E_step (k : ℤ) 1 (by positivity)
    push_cast at h1
    have h2 := (bit_01 a k).2
    have h3 := E_pos (k : ℤ)
    rw [h1]; nlinarith
/-- the lowest bits of one block -/
theorem low_in (a) (ha : Word a) (k : ℤ) (h : 0 ≤ k) (j : ℕ) (hj : j ≤ 32) : low a (32 * k + j) = low a (32 * k) + E (32 * k) * (a k % 2 ^ j) := by
  induction j with
  | zero => simp
  | succ j ih =>
    have ih := ih (by omega)
    have h1 : 32 * k + ((j + 1 : ℕ) : ℤ) = (32 * k + j) + 1 := by push_cast; ring
    rw [h1, low_step a _ (by positivity), ih, E_step (32 * k) j (by omega)]
    have h2 : bit a (32 * k + j) = a k / 2 ^ j % 2 := by
      have h3 : (32 * k + (j : ℤ)) / 32 = k := by omega
      rw [bit_def a _ j (by rw [h3]; ring), h3]
    rw [h2]
    have h4 : a k % 2 ^ (j + 1) = a k % 2 ^ j + 2 ^ j * (a k / 2 ^ j % 2) := by
      rw [pow_succ, Int.emod_def (a k) (2 ^ j * 2), Int.emod_def (a k) (2 ^ j), Int.emod_def (a k / 2 ^ j) 2, Int.ediv_ediv_of_nonneg (by positivity)]; ring
    rw [h4]; ring
theorem low_block (a) (ha : Word a) (k : ℤ) (h : 0 ≤ k) : low a (32 * k) = V a k := by
  refine V_nat_ind (P := fun k => low a (32 * k) = V a k) ?_ ?_ k h
  · rw [V_nonpos a 0 le_rfl]; exact low_zero a _ (by norm_num)
  · intro k ih
    try simp only at ih ⊢
    have h1 := low_in a ha k (by positivity) 32 le_rfl
    rw [V_step a k (by positivity), ← ih]
    have h2 : 32 * ((k : ℤ) + 1) = 32 * (k : ℤ) + ((32 : ℕ) : ℤ) := by push_cast; ring
    rw [h2, h1, Int.emod_eq_of_lt (ha k).1 (ha k).2]; ring
theorem low_block' (a) (ha : Word a) (k i : ℤ) (h : i = 32 * k) : low a i = V a k := by
  rcases le_or_gt 0 k with h0 | h0
  · rw [h]; exact low_block a ha k h0
  · rw [low_zero a i (by omega), V_nonpos a k (by omega)]
theorem bit_val (a) (ha : Word a) (k : ℤ) (i : ℕ) (hk : 1 ≤ k) (hi : i < 32) : bit a i = V a k / 2 ^ i % 2 := by
  rw [V_split a 1 k (by omega) hk]
  have h1 : V a 1 = a 0 := by
    have := V_step a 0 le_rfl
    rw [zero_add] at this; rw [this, V_nonpos a 0 le_rfl, E_zero _ (by norm_num)]; ring
  have h2 : bit a i = a 0 / 2 ^ i % 2 := by
    have h3 : (i : ℤ) / 32 = 0 := by omega
    rw [bit_def a i i (by rw [h3]; ring), h3]
  rw [h1, h2]
  have h4 : E (32 * 1) = 2 ^ i * (2 * 2 ^ (31 - i)) := by
    have : (32 * 1 : ℤ) = ((32 : ℕ) : ℤ) := by norm_num
    rw [this, E_nat, ← pow_succ', ← pow_add]; congr 1; omega
  rw [h4, mul_assoc, Int.add_mul_ediv_left _ _ (by positivity), mul_assoc 2, Int.add_mul_emod_self_left]
/-- the bit of a value -/
theorem bit_low (a) (ha : Word a) (k i : ℤ) (h0 : 0 ≤ i) (h : i < 32 * k) : ∃ q, V a k = low a i + E i * (bit a i + 2 * q) := by
  have key : ∀ m : ℤ, 0 ≤ m → ∃ q, low a (i + 1 + m) = low a i + E i * (bit a i + 2 * q) := by
    intro m hm
    refine V_nat_ind (P := fun m => ∃ q, low a (i + 1 + m) = low a i + E i * (bit a i + 2 * q)) ?_ ?_ m hm
    · exact ⟨0, by rw [add_zero, low_step a i h0]; ring⟩
    · rintro j ⟨q, hq⟩
      refine ⟨q + bit a (i + 1 + j) * E j, ?_⟩
      rw [← add_assoc, low_step a _ (by positivity), hq]
      have : E (i + 1 + j) = 2 * E i * E j := by
        rw [← E_add (i + 1) j (by omega) (by positivity)]
        have := E_step i 1 h0; push_cast at this; rw [this]
      rw [this]; ring
  obtain ⟨q, hq⟩ := key (32 * k - (i + 1)) (by omega)
  refine ⟨q, ?_⟩
  rw [← low_block a ha k (by omega), ← hq]; congr 1; ring
theorem cong_bit (a) (ha : Word a) (k e i : ℤ) (s : cong (V a k) e) (h0 : 0 ≤ i) (h1 : i < e) (h2 : i < 32 * k) : bit a i = 0 := by
  obtain ⟨w, hw⟩ := s
  obtain ⟨q, hq⟩ := bit_low a ha k i h0 h2
  have h3 : E e = E i * (2 * E (e - i - 1)) := by
    have h4 := E_step (e - i - 1) 1 (by omega); push_cast at h4
    rw [← h4, E_add _ _ h0 (by omega)]; congr 1; ring
  have hE := E_pos i
  have hr := low_range a i h0
  have hn := low_nonneg a i
  have hb := bit_01 a i
  rw [hw, h3] at hq
  have h5 : low a i = E i * (w * (2 * E (e - i - 1)) - bit a i - 2 * q) := by linear_combination -hq
  have h6 : w * (2 * E (e - i - 1)) - bit a i - 2 * q = 0 := by
    rw [h5] at hr hn
    by_contra hne
    rcases lt_or_gt_of_ne hne with h | h <;> nlinarith
  have h7 : bit a i = 2 * (w * E (e - i - 1) - q) := by linear_combination -h6
  omega

/-! Bitwise functions of natural numbers. -/
theorem bw_zero (v : ℕ) : 0 &&& v = 0 ∧ v &&& 0 = 0 ∧ 0 ||| v = v ∧ v ||| 0 = v ∧ 0 ^^^ v = v ∧ v ^^^ 0 = v := by simp
theorem bw_same (v : ℕ) : v &&& v = v ∧ v ||| v = v ∧ v ^^^ v = 0 := by simp
theorem bw_comm (x y : ℕ) : x &&& y = y &&& x ∧ x ||| y = y ||| x ∧ x ^^^ y = y ^^^ x := ⟨Nat.and_comm x y, Nat.or_comm x y, Nat.xor_comm x y⟩
theorem bw_or_le (x : ℕ) : ∀ y, x ||| y ≤ x + y ∧ x ^^^ y ≤ x + y := by
  induction x using Nat.strong_induction_on with
  | _ x ih =>
    intro y
    rcases Nat.eq_zero_or_pos x with rfl | hx
    · simp
    · have h := ih (x / 2) (by omega) (y / 2)
      have h1 : (x ||| y) / 2 = x / 2 ||| y / 2 := by have := Nat.or_div_two_pow (a := x) (b := y) (n := 1); simpa using this
      have h2 : (x ^^^ y) / 2 = x / 2 ^^^ y / 2 := by have := Nat.xor_div_two_pow (a := x) (b := y) (n := 1); simpa using this
      have h3 : (x ||| y) % 2 = x % 2 ||| y % 2 := by have := Nat.or_mod_two_pow (a := x) (b := y) (n := 1); simpa using this
      have h4 : (x ^^^ y) % 2 = x % 2 ^^^ y % 2 := by have := Nat.xor_mod_two_pow (a := x) (b := y) (n := 1); simpa using this
      have h5 : x % 2 ||| y % 2 ≤ x % 2 + y % 2 := by rcases Nat.mod_two_eq_zero_or_one x with a | a <;> rcases Nat.mod_two_eq_zero_or_one y with b | b <;> simp [a, b]
      have h6 : x % 2 ^^^ y % 2 ≤ x % 2 + y % 2 := by rcases Nat.mod_two_eq_zero_or_one x with a | a <;> rcases Nat.mod_two_eq_zero_or_one y with b | b <;> simp [a, b]
      omega
theorem bw_range (x y : ℕ) : x &&& y ≤ x ∧ x &&& y ≤ y ∧ x ≤ x ||| y ∧ y ≤ x ||| y ∧ x ||| y ≤ x + y ∧ x ^^^ y ≤ x + y :=
  ⟨Nat.and_le_left, Nat.and_le_right, Nat.left_le_or, Nat.right_le_or, (bw_or_le x y).1, (bw_or_le x y).2⟩

/-! Products of nonnegative numbers. -/
theorem square_mono (x y m : ℤ) (hx : 0 ≤ x) (_hy : 0 ≤ y) (h1 : x ≤ m - 1) (h2 : y ≤ m - 1) : x * y ≤ m * m - 1 := by nlinarith
theorem far_factor (x q : ℤ) (hx : 0 ≤ x) (h : x + 3 ≤ q) : x * x + 3 * x ≤ x * q := by nlinarith
theorem amgm (x q z : ℤ) (hx : 0 ≤ x) (hq : 0 ≤ q) (_hz : 0 ≤ z) (h : x + q ≤ 2 * z + 1) : x * q + x ≤ z * z + 2 * z + 1 := by
  nlinarith [sq_nonneg (x - (q + 1)), mul_self_nonneg (2 * (z + 1) - (x + q + 1))]

/-! Quotient, remainder, greatest common divisor, powers modulo a number. -/
noncomputable def quo (a d : ℤ) : ℤ := if 1 ≤ d ∧ 0 ≤ a then a / d else 0
noncomputable def rem (a d : ℤ) : ℤ := if 1 ≤ d ∧ 0 ≤ a then a % d else 0
noncomputable def gcd (a b : ℤ) : ℤ := if 0 ≤ a ∧ 0 ≤ b then (Int.gcd a b : ℤ) else 0
noncomputable def pm (b e m : ℤ) : ℤ := if 0 ≤ e ∧ 0 ≤ b ∧ 1 ≤ m then b ^ e.toNat % m else 0
theorem euclid (a d : ℤ) (hd : 1 ≤ d) (ha : 0 ≤ a) : a = quo a d * d + rem a d ∧ 0 ≤ quo a d ∧ 0 ≤ rem a d ∧ rem a d ≤ d - 1 := by
  unfold quo rem; rw [if_pos ⟨hd, ha⟩, if_pos ⟨hd, ha⟩]
  have h1 := Int.emod_nonneg a (show d ≠ 0 by omega)
  have h2 := Int.emod_lt_of_pos a (show 0 < d by omega)
  refine ⟨by have := Int.ediv_mul_add_emod a d; linarith, Int.ediv_nonneg ha (by omega), h1, by omega⟩
theorem rem_small (a d : ℤ) (ha : 0 ≤ a) (h : a < d) : rem a d = a ∧ quo a d = 0 := by
  unfold quo rem; rw [if_pos ⟨by omega, ha⟩, if_pos ⟨by omega, ha⟩]
  exact ⟨Int.emod_eq_of_lt ha h, Int.ediv_eq_zero_of_lt ha h⟩
theorem quo_const (x d b : ℤ) (hd : d = b) (hb : 1 ≤ b) (hx : 0 ≤ x) : x = b * quo x d + rem x d ∧ 0 ≤ rem x d ∧ rem x d ≤ b - 1 := by
  subst hd; have := euclid x d hb hx; exact ⟨by linarith [this.1], this.2.2.1, this.2.2.2⟩
theorem gcd_zero_right (a : ℤ) (ha : 0 ≤ a) : gcd a 0 = a := by unfold gcd; rw [if_pos ⟨ha, le_rfl⟩]; simp [abs_of_nonneg ha]
theorem gcd_zero_left (b : ℤ) (hb : 0 ≤ b) : gcd 0 b = b := by unfold gcd; rw [if_pos ⟨le_rfl, hb⟩]; simp [abs_of_nonneg hb]
theorem gcd_comm (a b : ℤ) : gcd a b = gcd b a := by unfold gcd; simp only [and_comm, Int.gcd_comm]
theorem gcd_pos (a b : ℤ) (ha : 0 ≤ a) (hb : 0 ≤ b) (h : 1 ≤ a + b) : 1 ≤ gcd a b := by
  unfold gcd; rw [if_pos ⟨ha, hb⟩]
  have : 0 < Int.gcd a b := Int.gcd_pos_iff.mpr (by omega)
  exact_mod_cast this
theorem gcd_divides (a b : ℤ) (ha : 0 ≤ a) (hb : 0 ≤ b) (h : 1 ≤ a + b) : a = quo a (gcd a b) * gcd a b := by
  have h1 := gcd_pos a b ha hb h
  unfold quo; rw [if_pos ⟨h1, ha⟩]
  have : gcd a b ∣ a := by unfold gcd; rw [if_pos ⟨ha, hb⟩]; exact Int.gcd_dvd_left ..
  rw [Int.ediv_mul_cancel this]
theorem gcd_rem (x y : ℤ) (hy : 1 ≤ y) (hx : 0 ≤ x) : gcd x y = gcd y (rem x y) := by
  have h := (euclid x y hy hx).2.2.1
  unfold gcd; rw [if_pos ⟨hx, by omega⟩, if_pos ⟨by omega, h⟩]
  unfold rem; rw [if_pos ⟨hy, hx⟩, Int.gcd_comm y, Int.gcd_emod]
theorem pm_mul (b e f m : ℤ) (hm : 1 ≤ m) (hb : 0 ≤ b) (he : 0 ≤ e) (hf : 0 ≤ f) : rem (pm b e m * pm b f m) m = pm b (e + f) m := by
  have h (e : ℤ) (he : 0 ≤ e) : pm b e m = b ^ e.toNat % m := by unfold pm; rw [if_pos ⟨he, hb, hm⟩]
  have h1 : 0 ≤ pm b e m * pm b f m := by
    rw [h e he, h f hf]; exact mul_nonneg (Int.emod_nonneg _ (by omega)) (Int.emod_nonneg _ (by omega))
  unfold rem; rw [if_pos ⟨hm, h1⟩, h e he, h f hf, h (e + f) (by omega), Int.toNat_add he hf, pow_add, ← Int.mul_emod]
theorem pm_zero (b m : ℤ) (hm : 1 ≤ m) (hb : 0 ≤ b) : pm b 0 m = rem 1 m := by unfold pm rem; rw [if_pos ⟨le_rfl, hb, hm⟩, if_pos ⟨hm, by norm_num⟩]; simp
theorem pm_one (b m : ℤ) (hm : 1 ≤ m) (hb : 0 ≤ b) : pm b 1 m = rem b m := by unfold pm rem; rw [if_pos ⟨by norm_num, hb, hm⟩, if_pos ⟨hm, hb⟩]; simp
theorem pm_range (b e m : ℤ) (hm : 1 ≤ m) (hb : 0 ≤ b) (he : 0 ≤ e) : 0 ≤ pm b e m ∧ pm b e m ≤ m - 1 := by
  unfold pm; rw [if_pos ⟨he, hb, hm⟩]
  have := Int.emod_lt_of_pos (b ^ e.toNat) (show 0 < m by omega)
  exact ⟨Int.emod_nonneg _ (by omega), by omega⟩

/-! Digits. -/
/-- x div b^j -/
def Q (x b j : ℤ) : ℤ := if 0 ≤ j ∧ 2 ≤ b ∧ 0 ≤ x then x / b ^ j.toNat else 0
def dg (x b j : ℤ) : ℤ := if 0 ≤ j ∧ 2 ≤ b ∧ 0 ≤ x then x / b ^ j.toNat % b else 0
/-- number of digits -/
def nd (x b : ℤ) : ℤ := (Nat.digits b.toNat x.toNat).length
theorem Q_zero (x b : ℤ) (hb : 2 ≤ b) (hx : 0 ≤ x) : Q x b 0 = x := by unfold Q; rw [if_pos ⟨le_rfl, hb, hx⟩]; simp
theorem Q_step (x b j : ℤ) (hb : 2 ≤ b) (hx : 0 ≤ x) (hj : 0 ≤ j) : Q x b j = b * Q x b (j + 1) + dg x b j := by
  unfold Q dg; rw [if_pos ⟨hj, hb, hx⟩, if_pos ⟨by omega, hb, hx⟩, if_pos ⟨hj, hb, hx⟩, Int.toNat_add hj (by norm_num), pow_add,
    ← Int.ediv_ediv_of_nonneg (by positivity)]
  have := Int.mul_ediv_add_emod (x / b ^ j.toNat) b
  simp only [Int.toNat_one, pow_one]; linarith
theorem Q_nonneg (x b j : ℤ) : 0 ≤ Q x b j := by
  unfold Q; split_ifs with h
  · exact Int.ediv_nonneg h.2.2 (by have := h.2.1; positivity)
  · exact le_rfl
theorem dg_range (x b j : ℤ) (hb : 2 ≤ b) : 0 ≤ dg x b j ∧ dg x b j ≤ b - 1 := by
  unfold dg; split_ifs with h
  · have := Int.emod_lt_of_pos (x / b ^ j.toNat) (show 0 < b by omega)
    exact ⟨Int.emod_nonneg _ (by omega), by omega⟩
  · omega
theorem nd_le (x b : ℤ) (j : ℕ) (hb : 2 ≤ b) (hx : 0 ≤ x) : nd x b ≤ j ↔ x < b ^ j := by
  obtain ⟨y, rfl⟩ := Int.eq_ofNat_of_zero_le hx
  obtain ⟨c, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ b by omega)
  unfold nd; simp only [Int.toNat_natCast]
  have h := Nat.digits_length_le_iff (b := c) (k := j) (by exact_mod_cast hb) y
  exact_mod_cast h
theorem nd_Q_ge (x b j : ℤ) (hb : 2 ≤ b) (hx : 0 ≤ x) (hj : 0 ≤ j) (h : 1 ≤ Q x b j) : j + 1 ≤ nd x b := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le hj
  by_contra hc
  have h1 := (nd_le x b n hb hx).mp (by omega)
  unfold Q at h; rw [if_pos ⟨hj, hb, hx⟩, Int.toNat_natCast, Int.ediv_eq_zero_of_lt hx h1] at h; omega
theorem nd_Q_le (x b j : ℤ) (hb : 2 ≤ b) (hx : 0 ≤ x) (hj : 0 ≤ j) (h : Q x b j = 0) : nd x b ≤ j := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le hj
  refine (nd_le x b n hb hx).mpr ?_
  unfold Q at h; rw [if_pos ⟨hj, hb, hx⟩, Int.toNat_natCast] at h
  have hp : 0 < b ^ n := by positivity
  by_contra hc
  have := Int.le_ediv_of_mul_le hp (show 1 * b ^ n ≤ x by omega)
  omega
theorem nd_pos (x b : ℤ) (hb : 2 ≤ b) (h : 1 ≤ x) : 1 ≤ nd x b := by
  have := nd_Q_ge x b 0 hb (by omega) le_rfl (by rw [Q_zero x b hb (by omega)]; exact h); omega
theorem nd_zero (b : ℤ) : nd 0 b = 0 := by unfold nd; simp
theorem hex_word (x : ℤ) (hx : 0 ≤ x) (h : x ≤ 2 ^ 32 - 1) : nd x 16 ≤ 8 := by
  exact_mod_cast (nd_le x 16 8 (by norm_num) hx).mpr (by norm_num; omega)
/-- at most one digit per three bits -/
theorem digit_room (a : ℤ → ℤ) (ha : Word a) (b n j : ℤ) (hb : 8 ≤ b) (hj : 0 ≤ j) (h : 32 * n ≤ 3 * j) : Q (V a n) b j = 0 := by
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le hj
  have h0 := V_nonneg a ha n
  unfold Q; rw [if_pos ⟨hj, by omega, h0⟩, Int.toNat_natCast]
  apply Int.ediv_eq_zero_of_lt h0
  have h1 : (8 : ℤ) ^ k ≤ b ^ k := pow_le_pow_left₀ (by norm_num) hb k
  have h2 : V a n < 8 ^ k := by
    have h8 : (8 : ℤ) ^ k = E (3 * k) := by
      have : (3 * (k : ℤ)) = ((3 * k : ℕ) : ℤ) := by push_cast; ring
      rw [this, E_nat, pow_mul]; norm_num
    rw [h8]
    rcases le_or_gt 0 n with hn | hn
    · exact lt_of_lt_of_le (V_range a ha n hn) (E_mono _ _ h)
    · rw [V_nonpos a n hn.le]; exact E_pos _
  omega
theorem digit_room_nd (a : ℤ → ℤ) (ha : Word a) (b n : ℤ) (hb : 8 ≤ b) (hn : 0 ≤ n) : 3 * nd (V a n) b ≤ 32 * n + 2 := by
  have h := nd_Q_le (V a n) b ((32 * n + 2) / 3) (by omega) (V_nonneg a ha n) (by omega) (digit_room a ha b n _ hb (by omega) (by omega))
  omega
/-- hexadecimal digits come from the blocks -/
theorem hex_digits (a : ℤ → ℤ) (ha : Word a) (i n j : ℤ) (hi : 0 ≤ i) (h : i < n) (h1 : 8 * i ≤ j) (h2 : j < 8 * i + 8) :
    dg (V a n) 16 j = dg (a i) 16 (j - 8 * i) := by
  obtain ⟨k, hk⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ j - 8 * i by omega)
  have hk8 : k < 8 := by omega
  unfold dg; rw [if_pos ⟨by omega, by norm_num, V_nonneg a ha n⟩, if_pos ⟨by omega, by norm_num, (ha i).1⟩, hk, Int.toNat_natCast]
  have hp : (16 : ℤ) ^ j.toNat = E (32 * i) * 16 ^ k := by
    have e1 : (16 : ℤ) ^ k = E (4 * k) := by
      have : (4 * (k : ℤ)) = ((4 * k : ℕ) : ℤ) := by push_cast; ring
      rw [this, E_nat, pow_mul]; norm_num
    have e2 : (16 : ℤ) ^ j.toNat = E (4 * j) := by
      unfold E; have : (4 * j).toNat = 4 * j.toNat := by omega
      rw [this, pow_mul]; norm_num
    rw [e1, e2, E_add _ _ (by omega) (by positivity)]; congr 1; omega
  rw [hp, ← Int.ediv_ediv_of_nonneg (E_pos _).le]
  have hV : V a n / E (32 * i) = a i + 2 ^ 32 * Vs a (i + 1) n := by
    rw [V_split a (i + 1) n (by omega) (by omega), V_step a i hi]
    have e3 := E_step (32 * i) 32 (by omega)
    have e4 : 32 * (i + 1) = 32 * i + ((32 : ℕ) : ℤ) := by push_cast; ring
    rw [e4, e3]
    have e5 : V a i + a i * E (32 * i) + 2 ^ 32 * E (32 * i) * Vs a (i + 1) n = V a i + E (32 * i) * (a i + 2 ^ 32 * Vs a (i + 1) n) := by ring
    rw [e5, Int.add_mul_ediv_left _ _ (E_pos _).ne', Int.ediv_eq_zero_of_lt (V_nonneg a ha i) (V_range a ha i hi), zero_add]
  rw [hV]
  have e6 : (2 : ℤ) ^ 32 = 16 ^ k * (16 * 16 ^ (7 - k)) := by
    rw [← pow_succ', ← pow_add]; have : k + (7 - k + 1) = 8 := by omega
    rw [this]; norm_num
  rw [e6, mul_assoc, Int.add_mul_ediv_left _ _ (by positivity), mul_assoc 16, Int.add_mul_emod_self_left]
theorem hex_length (a : ℤ → ℤ) (ha : Word a) (i n : ℤ) (hi : 0 ≤ i) (_h : i < n) (h1 : 1 ≤ a i) (hx : V a n = V a (i + 1)) :
    nd (V a n) 16 = 8 * i + nd (a i) 16 := by
  have h0 := (ha i).1
  obtain ⟨m, hm⟩ := Int.eq_ofNat_of_zero_le hi
  have hp (k : ℕ) : (16 : ℤ) ^ (8 * m + k) = E (32 * i) * 16 ^ k := by
    rw [pow_add]; congr 1; rw [hm]
    have : (32 * (m : ℤ)) = ((32 * m : ℕ) : ℤ) := by push_cast; ring
    rw [this, E_nat, pow_mul, pow_mul]; norm_num
  have hlt (k : ℕ) : V a n < 16 ^ (8 * m + k) ↔ a i < 16 ^ k := by
    rw [hp, hx, V_step a i hi]
    have hE := E_pos (32 * i)
    have r1 := V_nonneg a ha i
    have r2 := V_range a ha i hi
    constructor
    · intro h; nlinarith
    · intro h; nlinarith
  have hV := V_nonneg a ha n
  have hnd : 1 ≤ nd (a i) 16 := nd_pos _ _ (by norm_num) h1
  obtain ⟨l, hl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ nd (a i) 16 - 1 by omega)
  have u1 := (nd_le (a i) 16 (l + 1) (by norm_num) h0).mp (by push_cast; omega)
  have u2 := (nd_le (V a n) 16 (8 * m + (l + 1)) (by norm_num) hV).mpr ((hlt _).mpr u1)
  have l1 : ¬ nd (V a n) 16 ≤ ((8 * m + l : ℕ) : ℤ) := by
    rw [nd_le _ _ _ (by norm_num) hV, hlt, ← nd_le _ _ _ (by norm_num) h0]; omega
  push_cast at u2 l1; omega

/-! The textual notation. -/
/-- value of a character as a digit; 99: none -/
def dig (c : ℤ) : ℤ := if 48 ≤ c ∧ c ≤ 57 then c - 48 else if 97 ≤ c ∧ c ≤ 102 then c - 87 else if 65 ≤ c ∧ c ≤ 70 then c - 55 else 99
theorem digit (c : ℤ) : (48 ≤ c ∧ c ≤ 57 → dig c = c - 48) ∧ (97 ≤ c ∧ c ≤ 102 → dig c = c - 87) ∧ (65 ≤ c ∧ c ≤ 70 → dig c = c - 55)
    ∧ (48 ≤ c ∧ c ≤ 57 ∨ 97 ≤ c ∧ c ≤ 102 ∨ 65 ≤ c ∧ c ≤ 70 ∨ dig c = 99) := by
  unfold dig; refine ⟨?_, ?_, ?_, ?_⟩ <;> intros <;> split_ifs <;> omega
/-- a hexadecimal digit beyond 9 is k characters further -/
def hexoff (d k : ℤ) : ℤ := if 10 ≤ d then k else 0
theorem hex_digit (d k : ℤ) : (10 ≤ d → hexoff d k = k) ∧ (d ≤ 9 → hexoff d k = 0) := by
  unfold hexoff; constructor <;> intro h <;> split_ifs <;> omega
def alnum (c : ℤ) : Prop := 48 ≤ c ∧ c ≤ 57 ∨ 97 ≤ c ∧ c ≤ 122 ∨ 65 ≤ c ∧ c ≤ 90
instance : DecidablePred alnum := fun c => by unfold alnum; infer_instance
open Classical in
/-- the first letter or digit of the first n characters, or n -/
noncomputable def fan (a : ℤ → ℤ) (n : ℤ) : ℤ := if h : ∃ k : ℕ, (k : ℤ) < n ∧ alnum (a k) then (Nat.find h : ℕ) else max n 0
theorem first_alnum_le (a) (n : ℤ) (h : 0 ≤ n) : fan a n ≤ n := by
  unfold fan; split_ifs with h1
  · exact (Nat.find_spec h1).1.le
  · omega
theorem first_alnum_nonneg (a) (n : ℤ) : 0 ≤ fan a n := by
  unfold fan; split_ifs <;> omega
theorem first_alnum_hit (a) (n : ℤ) (h : fan a n < n) : alnum (a (fan a n)) := by
  unfold fan at h ⊢; split_ifs with h1
  · exact (Nat.find_spec h1).2
  · rw [dif_neg h1] at h; omega
theorem first_alnum_before (a) (n i : ℤ) (h0 : 0 ≤ i) (h : i < fan a n) : ¬ alnum (a i) := by
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  unfold fan at h; split_ifs at h with h1
  · intro h2
    have h3 : k < Nat.find h1 := by exact_mod_cast h
    exact Nat.find_min h1 h3 ⟨lt_trans h (Nat.find_spec h1).1, h2⟩
  · intro h2; exact h1 ⟨k, by omega, h2⟩
/-- the base a letter after 0 announces; 10: none -/
def letter (c : ℤ) : ℤ := if c = 98 ∨ c = 66 then 2 else if c = 111 ∨ c = 79 then 8 else if c = 120 ∨ c = 88 then 16 else 10
noncomputable def cbase (a : ℤ → ℤ) (n : ℤ) : ℤ := if fan a n + 1 < n ∧ a (fan a n) = 48 then letter (a (fan a n + 1)) else 10
noncomputable def cstart (a : ℤ → ℤ) (n : ℤ) : ℤ := if fan a n + 1 < n ∧ a (fan a n) = 48 ∧ letter (a (fan a n + 1)) ≠ 10 then fan a n + 2 else fan a n
theorem prefix_hit (a) (n : ℤ) (h : fan a n + 1 < n) (h0 : a (fan a n) = 48) :
    (a (fan a n + 1) = 98 ∨ a (fan a n + 1) = 66 → cbase a n = 2 ∧ cstart a n = fan a n + 2) ∧
    (a (fan a n + 1) = 111 ∨ a (fan a n + 1) = 79 → cbase a n = 8 ∧ cstart a n = fan a n + 2) ∧
    (a (fan a n + 1) = 120 ∨ a (fan a n + 1) = 88 → cbase a n = 16 ∧ cstart a n = fan a n + 2) ∧
    (a (fan a n + 1) ≠ 98 ∧ a (fan a n + 1) ≠ 66 ∧ a (fan a n + 1) ≠ 111 ∧ a (fan a n + 1) ≠ 79 ∧ a (fan a n + 1) ≠ 120 ∧ a (fan a n + 1) ≠ 88 →
      cbase a n = 10 ∧ cstart a n = fan a n) := by
  unfold cbase cstart letter
  generalize a (fan a n + 1) = c
  refine ⟨?_, ?_, ?_, ?_⟩ <;> intro h1 <;> simp only [h, h0, and_self, true_and, if_true] <;> split_ifs <;> omega
theorem prefix_miss (a) (n : ℤ) (h : ¬ (fan a n + 1 < n ∧ a (fan a n) = 48)) : cbase a n = 10 ∧ cstart a n = fan a n := by
  unfold cbase cstart; rw [if_neg h, if_neg (fun h1 => h ⟨h1.1, h1.2.1⟩)]; exact ⟨rfl, rfl⟩
theorem prefix_range (a) (n : ℤ) : (0 ≤ n → 0 ≤ cstart a n ∧ cstart a n ≤ n) ∧ (cbase a n = 2 ∨ cbase a n = 8 ∨ cbase a n = 10 ∨ cbase a n = 16) := by
  constructor
  · intro h
    have h1 := first_alnum_le a n h
    have h2 := first_alnum_nonneg a n
    unfold cstart; split_ifs <;> omega
  · unfold cbase letter; split_ifs <;> omega
/-- the digits of base b among k characters from lo on, read left to right, other characters skipped -/
def hornerN (a : ℤ → ℤ) (b lo : ℤ) : ℕ → ℤ
  | 0 => 0
  | k + 1 => if dig (a (lo + k)) < b then hornerN a b lo k * b + dig (a (lo + k)) else hornerN a b lo k
def horner (a : ℤ → ℤ) (b lo hi : ℤ) : ℤ := hornerN a b lo (hi - lo).toNat
theorem horner_empty (a) (b lo hi : ℤ) (h : hi ≤ lo) : horner a b lo hi = 0 := by
  unfold horner; rw [Int.toNat_of_nonpos (by omega)]; rfl
theorem horner_step (a) (b lo hi : ℤ) (h : lo ≤ hi) :
    (dig (a hi) < b → horner a b lo (hi + 1) = horner a b lo hi * b + dig (a hi)) ∧ (b ≤ dig (a hi) → horner a b lo (hi + 1) = horner a b lo hi) := by
  obtain ⟨k, hk⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ hi - lo by omega)
  have h1 : hi + 1 - lo = ((k + 1 : ℕ) : ℤ) := by push_cast; omega
  have h2 : lo + (k : ℤ) = hi := by omega
  unfold horner; rw [h1, hk, Int.toNat_natCast, Int.toNat_natCast]
  simp only [hornerN, h2]
  constructor <;> intro h3
  · rw [if_pos h3]
  · rw [if_neg (by omega)]
/-- parity of the number of dashes among n characters -/
def dashesN (a : ℤ → ℤ) : ℕ → ℤ
  | 0 => 0
  | k + 1 => if a k = 45 then 1 - dashesN a k else dashesN a k
def dashes (a : ℤ → ℤ) (n : ℤ) : ℤ := dashesN a n.toNat
theorem dashes_empty (a) (n : ℤ) (h : n ≤ 0) : dashes a n = 0 := by
  unfold dashes; rw [Int.toNat_of_nonpos h]; rfl
theorem dashes_step (a) (n : ℤ) (h : 0 ≤ n) : (a n = 45 → dashes a (n + 1) = 1 - dashes a n) ∧ (a n ≠ 45 → dashes a (n + 1) = dashes a n) := by
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h
  have h1 : ((k : ℤ) + 1).toNat = k + 1 := by omega
  unfold dashes; rw [h1, Int.toNat_natCast]
  simp only [dashesN]
  constructor <;> intro h3
  · rw [if_pos h3]
  · rw [if_neg h3]
theorem dashes_bit (a) (n : ℤ) : dashes a n = 0 ∨ dashes a n = 1 := by
  unfold dashes; generalize n.toNat = k
  induction k with
  | zero => left; rfl
  | succ k ih => simp only [dashesN]; split_ifs <;> omega
end VT
