//! Stand-in for the Rust bindings of EVMC with Tosca's extensions. With the feature "borrowing" it has the interface
//! of their optimised variant, in which messages borrow their data and results own boxed slices.
#![allow(non_camel_case_types, unexpected_cfgs, clippy::all)]

pub mod ffi;

use std::ops::{Deref, DerefMut};

pub use ffi::{
    evmc_access_status as AccessStatus, evmc_address as Address, evmc_bytes32 as Bytes32, evmc_bytes32 as Uint256,
    evmc_call_kind as MessageKind, evmc_flags as MessageFlags, evmc_revision as Revision, evmc_status_code as StatusCode,
    evmc_step_status_code as StepStatusCode, evmc_storage_status as StorageStatus, evmc_tx_context as ExecutionTxContext,
};

#[cfg(not(feature = "borrowing"))]
pub type Output = Vec<u8>;
#[cfg(feature = "borrowing")]
pub type Output = Box<[u8]>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SetOptionError {
    InvalidKey,
    InvalidValue,
}

pub trait EvmcVm {
    fn init() -> Self;

    fn execute<'a>(
        &self,
        revision: Revision,
        code: &'a [u8],
        message: &'a ExecutionMessage,
        context: Option<&'a mut ExecutionContext<'a>>,
    ) -> ExecutionResult;

    fn set_option(&mut self, _key: &str, _value: &str) -> Result<(), SetOptionError> {
        Ok(())
    }
}

pub trait SteppableEvmcVm {
    #[allow(clippy::too_many_arguments)]
    fn step_n<'a>(
        &self,
        revision: Revision,
        code: &'a [u8],
        message: &'a ExecutionMessage,
        context: Option<&'a mut ExecutionContext<'a>>,
        step_status: StepStatusCode,
        pc: u64,
        gas_refunds: i64,
        stack: &'a mut [Uint256],
        memory: &'a mut [u8],
        last_call_return_data: &'a mut [u8],
        steps: i32,
    ) -> StepResult;
}

unsafe fn slice<'a>(data: *const u8, size: usize) -> Option<&'a [u8]> {
    if data.is_null() || size == 0 {
        None
    } else {
        Some(std::slice::from_raw_parts(data, size))
    }
}

fn raw(data: Option<&[u8]>) -> (*const u8, usize) {
    match data {
        Some(d) if !d.is_empty() => (d.as_ptr(), d.len()),
        _ => (std::ptr::null(), 0),
    }
}

// ---- messages ----

#[cfg(not(feature = "borrowing"))]
mod message {
    use super::*;

    #[derive(Debug)]
    pub struct ExecutionMessage {
        pub(super) kind: MessageKind,
        pub(super) flags: u32,
        pub(super) depth: i32,
        pub(super) gas: i64,
        pub(super) recipient: Address,
        pub(super) sender: Address,
        pub(super) input: Option<Vec<u8>>,
        pub(super) value: Uint256,
        pub(super) create2_salt: Bytes32,
        pub(super) code_address: Address,
        pub(super) code: Option<Vec<u8>>,
        pub(super) code_hash: Option<Uint256>,
    }

    impl ExecutionMessage {
        #[allow(clippy::too_many_arguments)]
        pub fn new(
            kind: MessageKind,
            flags: u32,
            depth: i32,
            gas: i64,
            recipient: Address,
            sender: Address,
            input: Option<&[u8]>,
            value: Uint256,
            create2_salt: Bytes32,
            code_address: Address,
            code: Option<&[u8]>,
            code_hash: Option<Uint256>,
        ) -> Self {
            ExecutionMessage {
                kind, flags, depth, gas, recipient, sender,
                input: input.map(|d| d.to_vec()),
                value, create2_salt, code_address,
                code: code.map(|d| d.to_vec()),
                code_hash,
            }
        }

        pub fn input(&self) -> Option<&Vec<u8>> {
            self.input.as_ref()
        }

        pub fn code(&self) -> Option<&Vec<u8>> {
            self.code.as_ref()
        }

        pub(super) fn parts(&self) -> (Option<&[u8]>, Option<&[u8]>) {
            (self.input.as_deref(), self.code.as_deref())
        }
    }

    impl From<&ffi::evmc_message> for ExecutionMessage {
        fn from(m: &ffi::evmc_message) -> Self {
            unsafe {
                ExecutionMessage::new(
                    m.kind, m.flags, m.depth, m.gas, m.recipient, m.sender,
                    slice(m.input_data, m.input_size),
                    m.value, m.create2_salt, m.code_address,
                    slice(m.code, m.code_size),
                    m.code_hash.as_ref().copied(),
                )
            }
        }
    }
}

#[cfg(feature = "borrowing")]
mod message {
    use super::*;

    #[derive(Debug)]
    pub struct ExecutionMessage<'a> {
        pub(super) kind: MessageKind,
        pub(super) flags: u32,
        pub(super) depth: i32,
        pub(super) gas: i64,
        pub(super) recipient: Address,
        pub(super) sender: Address,
        pub(super) input: Option<&'a [u8]>,
        pub(super) value: Uint256,
        pub(super) create2_salt: Bytes32,
        pub(super) code_address: Address,
        pub(super) code: Option<&'a [u8]>,
        pub(super) code_hash: Option<Uint256>,
    }

    impl<'a> ExecutionMessage<'a> {
        #[allow(clippy::too_many_arguments)]
        pub fn new(
            kind: MessageKind,
            flags: u32,
            depth: i32,
            gas: i64,
            recipient: Address,
            sender: Address,
            input: Option<&'a [u8]>,
            value: Uint256,
            create2_salt: Bytes32,
            code_address: Address,
            code: Option<&'a [u8]>,
            code_hash: Option<Uint256>,
        ) -> Self {
            ExecutionMessage { kind, flags, depth, gas, recipient, sender, input, value, create2_salt, code_address, code, code_hash }
        }

        pub fn input(&self) -> Option<&'a [u8]> {
            self.input
        }

        pub fn code(&self) -> Option<&'a [u8]> {
            self.code
        }

        pub(super) fn parts(&self) -> (Option<&[u8]>, Option<&[u8]>) {
            (self.input, self.code)
        }
    }

    impl<'a> From<&'a ffi::evmc_message> for ExecutionMessage<'a> {
        fn from(m: &'a ffi::evmc_message) -> Self {
            unsafe {
                ExecutionMessage::new(
                    m.kind, m.flags, m.depth, m.gas, m.recipient, m.sender,
                    slice(m.input_data, m.input_size),
                    m.value, m.create2_salt, m.code_address,
                    slice(m.code, m.code_size),
                    m.code_hash.as_ref().copied(),
                )
            }
        }
    }
}

pub use message::ExecutionMessage;

macro_rules! accessors {
    ($($t:tt)*) => {
        impl $($t)* {
            pub fn kind(&self) -> MessageKind { self.kind }
            pub fn flags(&self) -> u32 { self.flags }
            pub fn depth(&self) -> i32 { self.depth }
            pub fn gas(&self) -> i64 { self.gas }
            pub fn recipient(&self) -> &Address { &self.recipient }
            pub fn sender(&self) -> &Address { &self.sender }
            pub fn value(&self) -> &Uint256 { &self.value }
            pub fn create2_salt(&self) -> &Bytes32 { &self.create2_salt }
            pub fn code_address(&self) -> &Address { &self.code_address }
            pub fn code_hash(&self) -> Option<&Uint256> { self.code_hash.as_ref() }
        }
    };
}
#[cfg(not(feature = "borrowing"))]
accessors!(ExecutionMessage);
#[cfg(feature = "borrowing")]
accessors!(ExecutionMessage<'_>);

// ---- results ----

#[derive(Debug)]
pub struct ExecutionResult {
    pub status_code: StatusCode,
    pub gas_left: i64,
    pub gas_refund: i64,
    pub output: Option<Output>,
    pub create_address: Option<Address>,
}

impl ExecutionResult {
    #[cfg(not(feature = "borrowing"))]
    pub fn new(status_code: StatusCode, gas_left: i64, gas_refund: i64, output: Option<&[u8]>) -> Self {
        ExecutionResult { status_code, gas_left, gas_refund, output: output.map(|d| d.to_vec()), create_address: None }
    }
    #[cfg(feature = "borrowing")]
    pub fn new(status_code: StatusCode, gas_left: i64, gas_refund: i64, output: Option<Box<[u8]>>) -> Self {
        ExecutionResult { status_code, gas_left, gas_refund, output, create_address: None }
    }
    pub fn status_code(&self) -> StatusCode { self.status_code }
    pub fn gas_left(&self) -> i64 { self.gas_left }
    pub fn gas_refund(&self) -> i64 { self.gas_refund }
    pub fn output(&self) -> Option<&[u8]> { self.output.as_deref() }
    pub fn create_address(&self) -> Option<&Address> { self.create_address.as_ref() }
}

impl From<ffi::evmc_result> for ExecutionResult {
    fn from(r: ffi::evmc_result) -> Self {
        let res = ExecutionResult {
            status_code: r.status_code,
            gas_left: r.gas_left,
            gas_refund: r.gas_refund,
            output: unsafe { slice(r.output_data, r.output_size) }.map(|d| Output::from(d)),
            create_address: Some(r.create_address),
        };
        if let Some(release) = r.release {
            unsafe { release(&r) };
        }
        res
    }
}

fn leak<T>(data: Vec<T>) -> (*mut T, usize) {
    if data.is_empty() {
        return (std::ptr::null_mut(), 0);
    }
    let b = Box::leak(data.into_boxed_slice());
    (b.as_mut_ptr(), b.len())
}

unsafe fn unleak<T>(data: *mut T, size: usize) {
    if !data.is_null() {
        drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(data, size)));
    }
}

extern "C" fn release_result(r: *const ffi::evmc_result) {
    unsafe { unleak((*r).output_data as *mut u8, (*r).output_size) }
}

impl From<ExecutionResult> for ffi::evmc_result {
    fn from(r: ExecutionResult) -> Self {
        let (output_data, output_size) = leak(r.output.map(|d| Vec::from(d)).unwrap_or_default());
        ffi::evmc_result {
            status_code: r.status_code,
            gas_left: r.gas_left,
            gas_refund: r.gas_refund,
            output_data,
            output_size,
            release: Some(release_result),
            create_address: r.create_address.unwrap_or(Address { bytes: [0; 20] }),
            padding: [0; 4],
        }
    }
}

#[derive(Debug)]
pub struct StepResult {
    pub step_status_code: StepStatusCode,
    pub status_code: StatusCode,
    pub revision: Revision,
    pub pc: u64,
    pub gas_left: i64,
    pub gas_refund: i64,
    pub output: Option<Output>,
    pub stack: Vec<Uint256>,
    pub memory: Vec<u8>,
    pub last_call_return_data: Option<Vec<u8>>,
}

impl StepResult {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        step_status_code: StepStatusCode,
        status_code: StatusCode,
        revision: Revision,
        pc: u64,
        gas_left: i64,
        gas_refund: i64,
        output: Option<Output>,
        stack: Vec<Uint256>,
        memory: Vec<u8>,
        last_call_return_data: Option<Vec<u8>>,
    ) -> Self {
        StepResult { step_status_code, status_code, revision, pc, gas_left, gas_refund, output, stack, memory, last_call_return_data }
    }
}

extern "C" fn release_step_result(r: *const ffi::evmc_step_result) {
    unsafe {
        let r = &*r;
        unleak(r.output_data as *mut u8, r.output_size);
        unleak(r.stack, r.stack_size);
        unleak(r.memory, r.memory_size);
        unleak(r.last_call_return_data, r.last_call_return_data_size);
    }
}

impl From<StepResult> for ffi::evmc_step_result {
    fn from(r: StepResult) -> Self {
        let (output_data, output_size) = leak(r.output.map(|d| Vec::from(d)).unwrap_or_default());
        let (stack, stack_size) = leak(r.stack);
        let (memory, memory_size) = leak(r.memory);
        let (last_call_return_data, last_call_return_data_size) = leak(r.last_call_return_data.unwrap_or_default());
        ffi::evmc_step_result {
            step_status_code: r.step_status_code,
            status_code: r.status_code,
            revision: r.revision,
            pc: r.pc,
            gas_left: r.gas_left,
            gas_refund: r.gas_refund,
            output_data,
            output_size,
            stack,
            stack_size,
            memory,
            memory_size,
            last_call_return_data,
            last_call_return_data_size,
            release: Some(release_step_result),
        }
    }
}

// ---- the host ----

pub struct ExecutionContext<'a> {
    host: &'a ffi::evmc_host_interface,
    context: *mut ffi::evmc_host_context,
    tx_context: Option<ExecutionTxContext>,
}

impl<'a> ExecutionContext<'a> {
    pub fn new(host: &'a ffi::evmc_host_interface, context: *mut ffi::evmc_host_context) -> Self {
        ExecutionContext { host, context, tx_context: None }
    }

    pub fn get_tx_context(&mut self) -> &ExecutionTxContext {
        let (host, context) = (self.host, self.context);
        self.tx_context.get_or_insert_with(|| unsafe { host.get_tx_context.unwrap()(context) })
    }

    pub fn account_exists(&self, address: &Address) -> bool {
        unsafe { self.host.account_exists.unwrap()(self.context, address) }
    }

    pub fn get_storage(&self, address: &Address, key: &Bytes32) -> Bytes32 {
        unsafe { self.host.get_storage.unwrap()(self.context, address, key) }
    }

    pub fn set_storage(&mut self, address: &Address, key: &Bytes32, value: &Bytes32) -> StorageStatus {
        unsafe { self.host.set_storage.unwrap()(self.context, address, key, value) }
    }

    pub fn get_balance(&self, address: &Address) -> Bytes32 {
        unsafe { self.host.get_balance.unwrap()(self.context, address) }
    }

    pub fn get_code_size(&self, address: &Address) -> usize {
        unsafe { self.host.get_code_size.unwrap()(self.context, address) }
    }

    pub fn get_code_hash(&self, address: &Address) -> Bytes32 {
        unsafe { self.host.get_code_hash.unwrap()(self.context, address) }
    }

    pub fn copy_code(&self, address: &Address, code_offset: usize, buffer: &mut [u8]) -> usize {
        unsafe { self.host.copy_code.unwrap()(self.context, address, code_offset, buffer.as_mut_ptr(), buffer.len()) }
    }

    pub fn selfdestruct(&mut self, address: &Address, beneficiary: &Address) -> bool {
        unsafe { self.host.selfdestruct.unwrap()(self.context, address, beneficiary) }
    }

    pub fn call(&mut self, message: &ExecutionMessage) -> ExecutionResult {
        let (input, code) = message.parts();
        let (input_data, input_size) = raw(input);
        let (code, code_size) = raw(code);
        let message = ffi::evmc_message {
            kind: message.kind(),
            flags: message.flags(),
            depth: message.depth(),
            gas: message.gas(),
            recipient: *message.recipient(),
            sender: *message.sender(),
            input_data,
            input_size,
            value: *message.value(),
            create2_salt: *message.create2_salt(),
            code_address: *message.code_address(),
            code,
            code_size,
            code_hash: message.code_hash().map_or(std::ptr::null(), |h| h as *const _),
        };
        unsafe { self.host.call.unwrap()(self.context, &message).into() }
    }

    pub fn get_block_hash(&self, num: i64) -> Bytes32 {
        unsafe { self.host.get_block_hash.unwrap()(self.context, num) }
    }

    pub fn emit_log(&mut self, address: &Address, data: &[u8], topics: &[Bytes32]) {
        unsafe { self.host.emit_log.unwrap()(self.context, address, if data.is_empty() { std::ptr::null() } else { data.as_ptr() }, data.len(), if topics.is_empty() { std::ptr::null() } else { topics.as_ptr() }, topics.len()) }
    }

    pub fn access_account(&mut self, address: &Address) -> AccessStatus {
        unsafe { self.host.access_account.unwrap()(self.context, address) }
    }

    pub fn access_storage(&mut self, address: &Address, key: &Bytes32) -> AccessStatus {
        unsafe { self.host.access_storage.unwrap()(self.context, address, key) }
    }

    pub fn get_transient_storage(&self, address: &Address, key: &Bytes32) -> Bytes32 {
        unsafe { self.host.get_transient_storage.unwrap()(self.context, address, key) }
    }

    pub fn set_transient_storage(&mut self, address: &Address, key: &Bytes32, value: &Bytes32) {
        unsafe { self.host.set_transient_storage.unwrap()(self.context, address, key, value) }
    }
}

// ---- instances ----

macro_rules! container {
    ($name:ident, $ffi:ty, $bound:ident) => {
        #[repr(C)]
        pub struct $name<T: EvmcVm> {
            #[allow(dead_code)]
            instance: $ffi,
            vm: T,
        }

        impl<T: EvmcVm + $bound> $name<T> {
            pub fn new(instance: $ffi) -> Box<Self> {
                Box::new($name { instance, vm: T::init() })
            }
            /// # Safety
            /// None is needed.
            pub unsafe fn into_ffi_pointer(boxed: Box<Self>) -> *mut $ffi {
                Box::into_raw(boxed) as *mut $ffi
            }
            /// # Safety
            /// The pointer comes from into_ffi_pointer.
            pub unsafe fn from_ffi_pointer(instance: *mut $ffi) -> Box<Self> {
                assert!(!instance.is_null(), "from_ffi_pointer received NULL");
                Box::from_raw(instance as *mut $name<T>)
            }
        }

        impl<T: EvmcVm> Deref for $name<T> {
            type Target = T;
            fn deref(&self) -> &T { &self.vm }
        }

        impl<T: EvmcVm> DerefMut for $name<T> {
            fn deref_mut(&mut self) -> &mut T { &mut self.vm }
        }
    };
}
container!(EvmcContainer, ffi::evmc_vm, EvmcVm);
container!(SteppableEvmcContainer, ffi::evmc_vm_steppable, SteppableEvmcVm);
